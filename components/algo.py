from itertools import product
from vf import Unit

KINDS = ['ptr', 'mv', 'vec', 'bid', 'fwd', 'arr']


def rand(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice(KINDS)
        m = rng.choice([2, 5, 12, 260] if k == 'arr' else [1, 6, 12, 12, 150, 300] if k != 'vec' else [1, 6, 16, 16, 280])
        out.append(['reset', [k, m]])
        hi = rng.choice([2, 3, 8, 70000]) if m < 20 else rng.choice([2, 3])
        v = lambda: rng.randrange(0, hi)
        for i in range(m):
            out.append(['set', [i, v()]])
        for _ in range(40 if m < 20 else 25):
            op = rng.choice(['set', 'fill', 'filln', 'find', 'copy', 'copyn', 'copyb', 'moveb', 'rev', 'swap', 'min', 'max', 'minc', 'equal', 'mis', 'search', 'search', 'ffo', 'minel', 'maxel', 'acc', 'clamp'])
            if op == 'moveb' and k == 'mv' and rng.random() < .9:
                continue
            i = rng.randrange(0, m + 1)
            j = rng.randrange(i, m + 1)
            if m > 20 and rng.random() < .5:
                i, j = rng.randrange(0, 5), rng.randrange(m - 8, m + 1)
            t = lambda l: [v() for _ in range(l)]
            if op in ('set',):
                a = [rng.randrange(0, m), v()]
            elif op in ('fill', 'find'):
                a = [i, j, v()]
            elif op == 'filln':
                a = [i, j - i, v()]
            elif op == 'copyn':
                a = [i, j - i, rng.randrange(0, m + 1)]
            elif op in ('copy', 'copyb', 'moveb'):
                a = [i, j, rng.randrange(0, m + 1)]
            elif op == 'rev':
                a = [i, j]
            elif op in ('swap', 'min', 'max'):
                a = [rng.randrange(0, m), rng.randrange(0, m)]
            elif op == 'minc':
                a = [rng.randrange(0, m), rng.randrange(0, m), rng.choice(['lt', 'gt', 'par'])]
            elif op in ('equal', 'mis'):
                a = [i, j, t(j - i)]
            elif op in ('search', 'ffo'):
                a = [i, j, t(rng.choice([0, 1, 1, 2, 2, 3, 5])), rng.choice(['eq', 'eq', 'le', 'ge'])]
            elif op in ('minel', 'maxel'):
                a = [i, j, rng.choice(['lt', 'gt', 'par'])]
            elif op == 'acc':
                a = [i, j, v(), 'sum' if hi > 8 or j - i > 20 else rng.choice(['sum', 'lin'])]
            else:
                a = [v(), v(), v(), rng.choice(['lt', 'gt', 'par'])]
            out.append([op, a])
        out.append(['end', []])
    return out


PATS = {p for l in range(3) for p in product((0, 1, 2), repeat=l)}
UNITS = [Unit('algo', 'Algo', 'algo.cpp', resets=[['ptr', 3]], t_resets=[['ptr', 4]], consts={'Vals': set(range(3)), 'Pats': {p for p in PATS} | {(0, 1, 1), (1, 0, 1), (0, 0, 1)}}, rand=rand, rand_n=16000,
              expand=lambda c: [[k, c[1]] for k in ('ptr', 'vec', 'bid', 'arr')], props=['Perm']),
         # values which are gone after a move; iterators which only advance
         Unit('algo-mv', 'Algo', 'algo.cpp', resets=[['mv', 3], ['fwd', 3]], consts={'Vals': {0, 1}, 'Pats': {(), (0,), (1,), (0, 1), (1, 1, 0)}}, props=['Perm'])]
