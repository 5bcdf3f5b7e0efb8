from vf import Unit


KINDS = ['p1', 'p3', 'p8', 'p20', 'p24', 'typed']
EXP = [f'{m}_{b}' for m in ('m1', 'ml', 'm2') for b in (1, 3, 8, 24)] + ['m1t', 'mlt']


def rand(rng, n, kinds=KINDS):
    out = []
    while len(out) < n:
        k = rng.choice(kinds)
        b = rng.choice([1, 2, 3, 4, 9, 9, 128, 300])
        ns = b + rng.choice([1, 2])
        out.append(['reset', [k, b, ns]])
        bias = rng.random()
        for _ in range(40 if b < 100 else 300 if b < 200 else 600):
            if rng.random() < .05:
                bias = rng.random()
            i = rng.randrange(1, ns + 1)
            op = rng.choice(['take', 'take', 'take', 'put']) if rng.random() < max(bias, .6 if b > 100 else 0) else 'give'
            out.append([op, [i] if op == 'give' else [i, rng.randrange(1, 200)]])
        out.append(['end', []])
    return out


UNITS = [Unit('pool', 'Pool', 'pool.cpp', resets=[[k, b, b + 1] for k in ('p1', 'p3', 'p8', 'p24', 'typed') for b in (1, 2, 3)],
              consts=dict(Vals={1, 2}), t_resets=[[k, b, b + 1] for k in ('p1', 'p3', 'p8', 'p24', 'typed') for b in (1, 2, 3, 4)],
              t_consts=dict(Vals={1, 2}), rand=rand, props=['Undisturbed'], rand_n=6000),
         Unit('pool_exp', 'Pool', 'pool.cpp', resets=[[k, b, b + 1] for k in EXP for b in (1, 2, 3) if b == 3 or k[-1] in '8t'],
              consts=dict(Vals={1, 2}), t_resets=[[k, b, b + 1] for k in EXP for b in (1, 2, 3, 4)], defines=('POOL_EXP',),
              t_consts=dict(Vals={1, 2}), rand=lambda r, n: rand(r, n, EXP), props=['Undisturbed'], rand_n=6000)]
