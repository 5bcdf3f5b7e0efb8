from itertools import product
from vf import Unit

KINDS = ['l1', 'il', 'l2', 'l3']
RESETS = [[k, t, [[a, i] for i, a in enumerate(ks)]] for k, t in zip(KINDS, ['i', 's', 'b', 'i']) for ks in ([0], [0, 1], [1, 1])] + [['l3', 's', [[0, 0], [1, 1]]]]
T_RESETS = [[k, t, [[a, i & 1] for i, a in enumerate(ks)]] for k, t in product(KINDS, ['i', 's', 'b']) for ks in ([0], [0, 1], [1, 1], [1, 0, 1])]


def rand(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice(KINDS)
        m = rng.randrange(1, 7)
        hi = rng.choice([2, 4, 8])
        key = lambda: rng.choice([rng.randrange(hi), rng.randrange(hi), rng.randrange(-1, 5), 100])
        val = lambda: rng.choice([rng.randrange(-3, 4), rng.randrange(-2000000000, 2000000000)])
        out.append(['reset', [k, rng.choice('ibs'), [[key(), val()] for _ in range(m)]]])
        for _ in range(30):
            i = rng.randrange(1, 3)
            op = rng.choice(['get', 'get', 'set', 'set', 'same', 'write', 'write', 'copy', 'kill'])
            a = {'get': lambda: [i, key()], 'set': lambda: [i, key(), val()], 'same': lambda: [i, key(), key()],
                 'write': lambda: [rng.randrange(1, m + 1), [key(), val()]], 'copy': lambda: [i], 'kill': lambda: [i]}[op]()
            out.append([op, a])
        out.append(['end', []])
    return out


UNITS = [Unit('fixmap', 'FixMap', 'fixmap.cpp', resets=RESETS, consts=dict(KEYS={0, 1, 2}, VALS={0, 1}), t_resets=T_RESETS, rand=rand, props=['NoInsert'])]
