from vf import Unit

RATIOS = [[1, 1], [1, 1000], [1, 100], [1, 60], [1, 10], [1, 4], [1, 3], [1, 2], [2, 3], [3, 4], [3, 2], [2, 1], [3, 1], [10, 1], [60, 1], [100, 1], [125, 9], [1000, 1], [3600, 1], [0, 1], [-1, 2], [-3, 1]]


def rand(rng, n):
    out = []
    while len(out) < n:
        out.append(['reset', rng.randrange(1, len(RATIOS) + 1)])
        for _ in range(12):
            out.append([rng.choice(['mul', 'div', 'add']), [rng.randrange(1, len(RATIOS) + 1)]])
        out.append(['end', []])
    return out


TYPES = ['bool', 'char', 'schar', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'llong', 'ullong', 'float', 'double', 'ldouble', 'pA', 'pB', 'cpA', 'pv', 'cpv', 'pi', 'A', 'B', 'S', 'T2', 'L', 'null', 'K']


def rand_common(rng, n):
    out = []
    while len(out) < n:
        out.append(['reset', [rng.choice(TYPES), rng.randrange(1, 13)]])
        for _ in range(12):
            o = rng.choice(['fold', 'one', 'narrow', 'mul', 'div', 'gcd', 'lcm', 'period'])
            if o in ('fold', 'one'):
                out.append([o, [rng.choice(TYPES), rng.randrange(5)]])
            elif o == 'narrow':
                out.append([o, [rng.choice([8, 16, 32, 64]), rng.random() < .5, rng.choice([8, 16, 32, 64]), rng.random() < .5, rng.random() < .5]])
            else:
                out.append([o, [rng.randrange(1, 13)]])
        out.append(['end', []])
    return out


UNITS = [Unit('meta', 'Meta', 'meta.cpp', resets=list(range(1, len(RATIOS) + 1)), consts=dict(RATIOS=tuple(map(tuple, RATIOS))), rand=rand, invariants=['Sane']),
         Unit('common', 'Common', 'common_t.cpp', resets=[['int', j] for j in range(1, 13)] + [[t, 1] for t in TYPES if t != 'int'], rand=rand_common, invariants=['Sane', 'Periods'])]
