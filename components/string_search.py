from vf import Unit, Raw

VARS = ['sv', 'l1z', 'l1s', 'l2', 'l2c', 'l3', 'l3c']


def expand(cfg):
    return [cfg] if cfg == ['sv'] else [[v] for v in VARS[1:]]


def rand(rng, n):
    out = []
    while len(out) < n:
        var = rng.choice(VARS)
        big = var not in ('l1z', 'l1s') and rng.random() < .06
        out.append(['reset', [var]])
        CH = rng.choice([[97, 98], [97, 98, 99], [97, 200, 255], list(range(65, 91))] + ([[97, 0, 98]] if var in ('sv', 'l3', 'l3c') else []))
        T = lambda a, b: [rng.choice(CH) for _ in range(rng.randrange(a, b))]
        for _ in range(rng.choice([2, 5])):
            hay = T(0, 12) if not big else T(250, 340)
            out.append(['set', [hay]])
            for _ in range(14 if not big else 6):
                op = rng.choice(['find_c', 'find_n', 'find_s', 'rfind_c', 'rfind_n', 'rfind_s', 'first_c', 'first_n', 'first_s', 'last_c',
                                 'last_n', 'last_s', 'starts_c', 'starts_s', 'ends_c', 'ends_s', 'cmp_c', 'cmp_s', 'eq_c', 'eq_rc', 'eq_s',
                                 'find_ch', 'starts_ch', 'ends_ch', 'hash_same', 'remove_prefix', 'remove_suffix', 'substr'])
                pos = lambda k: rng.randrange(0, k) if not big else rng.randrange(0, 350)
                # needles drawn from the haystack half of the time
                i = rng.randrange(0, len(hay) + 1)
                t = hay[i:i + rng.randrange(0, 6 if not big else 40)] if rng.random() < .6 else T(0, 5)
                if rng.random() < .15:
                    t = list(hay)
                if rng.random() < .1:
                    t = hay[:rng.randrange(0, len(hay) + 1)]
                if rng.random() < .1:
                    t = hay[rng.randrange(0, len(hay) + 1):]
                if big:
                    t = t[:50]
                if op in ('find_c', 'find_n', 'find_s', 'first_c', 'first_n', 'first_s'):
                    a = [t, pos(14)]
                elif op[:4] in ('rfin', 'last'):
                    a = [t, pos(14) - 1]
                elif op == 'find_ch':
                    a = [rng.choice(CH), pos(14)]
                elif op in ('starts_ch', 'ends_ch'):
                    a = [rng.choice(CH)]
                elif op == 'hash_same':
                    a = []
                elif op in ('remove_prefix', 'remove_suffix'):
                    a = [rng.randrange(0, 4)]
                elif op == 'substr':
                    a = [pos(10), pos(10) - 1]
                else:
                    a = [t]
                out.append([op, a])
    return out


UNITS = [Unit('strsearch', 'StrSearch', 'strsearch.cpp', resets=[['sv'], ['l1z']],
              consts=dict(Alpha={97, 200}, MaxHay=4, MaxNeedle=2),
              t_consts=dict(Alpha={97, 200}, MaxHay=5, MaxNeedle=3),
              invariants=['TypeOK', 'Sane'], expand=expand, rand=rand, walk=30000, rand_n=6000)]
