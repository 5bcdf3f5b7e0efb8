from vf import Unit

LONG = [[2, 1, 2, 2, 3, 2, 1], [1, 1, 1, 1, 1, 1], [3, 2, 2, 2, 2, 2, 2], [2, 2, 2, 2, 2, 3], [1, 3, 1, 2, 1], [2, 2, 2, 2, 2], [1, 2, 2, 2, 1, 3, 3]]


def rand(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice(['types', 'values'])
        out.append(['reset', [k, rng.choice(LONG) if rng.random() < .3 else []]])
        for _ in range(rng.randrange(0, 5)):
            out.append([rng.choice(['prepend', 'append']), [rng.randrange(1, 4)]])
        for _ in range(10):
            ops = [['at', [rng.randrange(0, 7)]], ['where', [rng.randrange(1, 4)]]]
            if k == 'types':
                ops += [['visit', [rng.choice(['visit', 'reverse', 'first']), rng.randrange(0, 8)]], ['even', []], ['trivial', []]]
            else:
                ops += [['visit', ['visit', rng.randrange(0, 8)]], ['among', [rng.choice([[1, 3], [2, 3]])]], ['iota', [rng.randrange(0, 10)]], ['reverse', []]]
            out.append(rng.choice(ops))
        out.append(['end', []])
    return out


UNITS = [Unit('typelist', 'TypeList', 'typelist.cpp', resets=[[k, w] for k in ('types', 'values') for w in [[]] + LONG], consts={'Elems': {1, 2, 3}, 'MaxLen': 4}, rand=rand, rand_n=3000)]
