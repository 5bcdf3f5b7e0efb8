from vf import Unit

NAMES = ['space', 'digit', 'alpha', 'punct', 'upper', 'lower', 'xdigit', 'alnum', 'graph']
PAIRS = [(a, b) for i, a in enumerate(NAMES) for b in NAMES[i + 1:]]


def rand(rng, n):
    out = []
    while len(out) < n:
        c = rng.randrange(0, 256)
        out.append(['reset', ['char', c]])
        for _ in range(12):
            b = rng.choice([2, 8, 10, 11, 16, 36])
            rb = rng.randrange(2, b + 1) if b <= 10 else rng.randrange(11, b + 1)
            out.append(rng.choice([['is', rng.sample(NAMES, rng.randrange(0, 5))], ['in', [b, rb]], ['from', [b, rb]]]))
        out.append(['end', []])
    return out


UNITS = [Unit('ctype', 'Ctype', 'ctype.cpp', resets=[['char', c] for c in range(256)] + [['value', v] for v in range(36)],
              consts={'Masks': {()} | {(m,) for m in NAMES} | set(PAIRS) | {tuple(NAMES)}}, rand=rand, rand_n=5000, invariants=('TypeOK', 'RoundTrip', 'Partition'))]
