from vf import Unit

KINDS = ['iii', 'isl', 'tet', 'eie', 'nst', 'ref', 'pii', 'pts']


def void(k, i):
    return (k == 'tet' and i == 2) or (k == 'eie' and i != 2)


def rand(rng, n):
    out = []
    L = 10000
    while len(out) < n:
        k = rng.choice(KINDS)
        m = 2 if k[0] == 'p' else 3
        out.append(['reset', [k]])
        val = lambda: rng.choice([rng.randrange(-L, L + 1), rng.randrange(-2, 3), L, -L])
        seq = lambda: [0 if void(k, i) else val() for i in range(1, m + 1)]
        # values as the script last left them, so that sums stay in range
        for _ in range(rng.randrange(5, 40)):
            t = rng.choice('ab')
            i = rng.choice([j for j in range(1, m + 1) if not void(k, j)])
            ops = ['set', 'set', 'copy', 'move', 'exch']
            if m == 3:
                ops += ['take', 'ctake', 'capply', 'mapply', 'cvisit', 'fwd', 'visit0', 'apply0']
                if k in ('isl', 'eie'):
                    ops += ['sett', 'taket']
                if k != 'ref':
                    ops += ['mk', 'mft']
                if k not in ('nst', 'ref'):
                    ops += ['gswap']
                if k == 'iii':
                    ops += ['sswap']
            else:
                ops += ['mk', 'assign', 'swap', 'cmp', 'cmp', 'gswap', 'equal']
            op = rng.choice(ops)
            if op == 'equal':
                s = seq()
                out.append(['mk', ['ctor', 'a', s]])
                s2 = list(s)
                if rng.random() < .7:
                    s2[rng.randrange(2)] += rng.choice([-1, 1])
                    s2 = [max(-L, min(L, x)) for x in s2]
                out.append(['mk', ['make', 'b', s2]])
                op = 'cmp'
            if op in ('visit0', 'apply0'):
                # fresh values small enough for the increment
                if k != 'ref':
                    out.append(['mk', [rng.choice(['ctor', 'make']), t, [x // 2 for x in seq()]]])
                    d = rng.randrange(-L // 2, L // 2)
                else:
                    for j in (1, 2, 3):
                        out.append(['set', [t, j, val() // 2]])
                    d = rng.randrange(-L // 2, L // 2)
                out.append(['visit', [t, rng.randrange(0, m + 1), d]] if op == 'visit0' else ['apply', [t, d]])
                continue
            a = {'set': lambda: [t, i, val()], 'sett': lambda: [t, i, val()], 'mk': lambda: [rng.choice(['ctor', 'make', 'piece'] if m == 2 else ['ctor', 'make']), t, seq()],
                 'exch': lambda: [i, val()], 'take': lambda: ['idx', i], 'taket': lambda: ['type', i], 'ctake': lambda: [i], 'cvisit': lambda: [rng.randrange(0, m + 1)],
                 'fwd': lambda: [[val() for _ in range(3)], rng.randrange(1, 4), val()], 'gswap': lambda: [i], 'sswap': lambda: [i, rng.randrange(1, 4)]}.get(op, lambda: [])()
            out.append(['take' if op == 'taket' else op, a])
        out.append(['end', []])
    return out


UNITS = [Unit('tuple', 'Tuple', 'tuple.cpp', resets=[[k] for k in KINDS], consts={'Vals': {1}, 'Deltas': {1}, 'Lim': 3}, t_consts={'Vals': {1, 2}, 'Deltas': {1, 2}, 'Lim': 4}, rand=rand, rand_n=5000)]
