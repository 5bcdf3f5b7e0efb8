import itertools
from vf import Unit

A = [97, 32, 255, 10]
T1 = [list(t) for n in (0, 1, 2) for t in itertools.product(A, repeat=n)]
T2 = [[32, 97, 98, 9, 255], [97, 10, 10, 98], [98, 98, 98, 98, 98, 98, 98, 98, 98], [13, 97, 98, 99, 32], [97, 98, 99, 97]]


def rand(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice(['l1', 'l1n', 'l2', 'span', 'nosync'])
        t = [rng.choice([97, 98, 99, 32, 10, 255, 128, 9, 225, 138] + ([0, 2] if k in ('span', 'nosync', 'l1n') else [])) for _ in range(rng.choice([4, 12, 60, 260, 700]))]
        if rng.random() < .4:
            t = [c if c not in (32, 10, 9) or rng.random() < .1 else 225 for c in t]
        rare = len(t) > 50 and rng.random() < .25     # one far delimiter
        if rare:
            t = [97] * len(t)
            t[rng.randrange(len(t) // 2, len(t))] = 122
        elif len(t) > 20:
            t = [c if rng.random() < .99 else rng.choice([122, 250]) for c in t]
        out.append(['reset', [k, t]])
        for _ in range(rng.choice([12, 40])):
            m = rng.choice([2, 8, 100, 300, 800])
            op = rng.choice(['get', 'peek', 'unget', 'read', 'readsome', 'getline', 'ignore', 'seekg', 'clear', 'clear', 'clear', 'setstate', 'ws', 'char', 'str', 'str', 'sync'])
            a = []
            if op in ('read', 'readsome'):
                a = [rng.randrange(0, m)]
            elif op == 'getline':
                a = [rng.randrange(1, m + 1), 122 if rare else rng.choice([10, 97, 225, 255, 122])]
            elif op == 'ignore':
                a = [rng.randrange(0, m), 122 if rare else rng.choice([-1, 10, 97, 225, 255, 122])]
            elif op == 'seekg':
                a = [rng.choice([0, 1, rng.randrange(-m, m + 1)]), rng.randrange(0, 3)]
            elif op == 'clear':
                a = [rng.choice([0, 0, 0, 4])]
            elif op == 'setstate':
                a = [rng.choice([1, 2, 4])]
            elif op == 'str':
                a = [rng.choice([3, 7, 12, 40, 280])]
            out.append([op, a])
        out.append(['end', []])
    return out


UNITS = [Unit('istream', 'IStream', 'istream.cpp', resets=[[k, t] for k in ('l1', 'l1n', 'l2', 'span') for t in T1 + T2] + [['nosync', t] for t in T2], consts={'MaxN': 3}, rand=rand,
              t_consts={'MaxN': 5}, props=['Monotone', 'Sticky', 'Counted'], rand_n=6000)]
