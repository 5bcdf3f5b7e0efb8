from vf import Unit

KINDS = ['dyn', 'cdyn', 'arr', 'un', 'l2', 'l3']


def rand(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice(KINDS)
        m = rng.choice([1, 2, 4, 7, 7, 200, 300])
        if k in ('dyn', 'cdyn') and rng.random() < .15:
            m = 70000
        out.append(['reset', [k, m]])
        ln = m
        for _ in range(12 if m > 10 else 40):
            v = rng.choice([rng.randrange(0, 65536), rng.randrange(0, 3), 255, 256, 65535])
            if k in ('dyn', 'cdyn'):
                op = rng.choice(['first', 'tfirst', 'sub', 'subd', 'via', 'whole', 'wr', 'wr', 'wrb'])
                a = {'first': lambda: [rng.randrange(0, ln + 1)], 'tfirst': lambda: [rng.randrange(0, min(5, ln) + 1)], 'sub': lambda: (lambda o: [o, rng.randrange(0, ln - o + 1)])(rng.randrange(0, ln + 1)),
                     'subd': lambda: [rng.randrange(0, min(3, ln) + 1)], 'via': lambda: [rng.choice(['copy', 'ptrs', 'count', 'assign'])], 'whole': lambda: [rng.choice(['array', 'fixed', 'ffirst'])],
                     'wr': lambda: [rng.randrange(0, max(ln, 1)), v], 'wrb': lambda: [rng.randrange(0, max(2 * ln, 1)), v % 256]}[op]()
                if m > 256 and rng.random() < (.4 if m < 1000 else .8):
                    if ln > 258 and rng.random() < .7:
                        o = rng.choice([rng.randrange(0, ln - 257), rng.randrange(0, 2)])
                        op, a = rng.choice([('sub', [o, rng.randrange(256, ln - o + 1) if rng.random() < .5 else ln - o - rng.randrange(0, 2)]), ('first', [rng.randrange(256, ln + 1)])])
                    else:
                        op, a = 'whole', [rng.choice(['array', 'fixed', 'ffirst'])]
                ln = {'first': lambda: a[0], 'tfirst': lambda: a[0], 'sub': lambda: a[1], 'subd': lambda: ln - a[0], 'whole': lambda: m}.get(op, lambda: ln)()
            else:
                op = rng.choice(['wr', 'wr', 'front', 'back', 'fill', 'eq', 'copy', 'assign', 'toarray'])
                t = lambda: [rng.choice([1, 2, rng.randrange(0, 65536)]) for _ in range(m)]
                a = {'wr': lambda: [rng.randrange(0, m), v], 'copy': lambda: [rng.randrange(0, m), v]}.get(op, lambda: [t()] if op in ('eq', 'assign', 'toarray') else [v])()
            out.append([op, a])
            if op == 'assign' and rng.random() < .5:
                # equal, or different in one place
                t = list(a[0])
                if rng.random() < .7:
                    t[rng.randrange(0, m)] ^= 1 << rng.randrange(16)
                out.append(['eq', [t]])
        out.append(['end', []])
    return out


UNITS = [Unit('views', 'Views', 'views.cpp', resets=[['dyn', 3], ['cdyn', 4]] + [[k, n] for k in KINDS[2:] for n in (1, 3)], t_resets=[['dyn', 4], ['cdyn', 4]] + [[k, n] for k in KINDS[2:] for n in (1, 4)],
              consts={'Vals': {1, 258, 515}}, rand=rand, rand_n=5000, props=['Inside'])]
