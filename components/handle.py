from vf import Unit, Raw

KINDS, ALLOCS = ('v4', 'v2', 'str'), ('st', 'sz', 'mv')


def expand(cfg):
    return [['v4', cfg[1]], ['v2', cfg[1]]] if cfg[0] == 'v4' else [cfg]


def rand(rng, n):
    out = []
    while len(out) < n:
        kind, al = rng.choice(KINDS + ('str',)), rng.choice(ALLOCS)
        S = kind == 'str'
        out.append(['reset', [kind, al]])
        W = rng.choice([3, 3, 120])
        M = rng.choice([6, 40, 150])
        V = lambda: rng.randrange(1, W)
        T = lambda m=8: [V() for _ in range(min(rng.choice([0, 1, 1, 2, 3, 5, m]), max(0, M - a)))]
        a = b = hi = held = 0
        acc = -1
        both = ['push', 'push', 'push_move', 'app', 'app_l1', 'app_b', 'pop', 'resize', 'clear', 'reserve', 'shrink', 'refused', 'bpush', 'bpush', 'bpop', 'eq_b', 'eq_l1', 'copy', 'to_fixed', 'get', 'get', 'put', 'put', 'swap',
                'hold', 'hold', 'hget', 'hget', 'hput', 'drop', 'drop', 'take', 'take', 'aget', 'aget', 'aput', 'acmp', 'set_l1', 'set_b', 'bset', 'eq_s', 'search', 'rsearch', 'first_of', 'last_of', 'erase', 'erase', 'ins_s', 'ins_s']
        ops = both + (['app_c', 'plus_c', 'plus_b', 'set_c', 'ins_b', 'rep', 'cmp_b', 'cmp_s', 'with_b', 'with_s', 'with_c', 'find_c', 'b', 'b', 'out'] if S else ['emplace', 'ins', 'ins', 'ins_move', 'push_self'])
        for _ in range(rng.choice([40, 100])):
            op = rng.choice(ops)
            if op in ('clear', 'set_l1', 'set_c', 'set_b', 'resize') and rng.random() < .6:
                continue
            i = rng.randrange(0, a) if a else 0
            if op in ('pop', 'get', 'put', 'hold', 'take', 'push_self', 'erase') and not a or op == 'swap' and a < 2 or op == 'bpop' and not b:
                continue
            if op in ('hget', 'hput', 'drop') and not held or op == 'hold' and held >= 3 or op in ('aget', 'aput', 'acmp') and not (0 <= acc < a):
                continue
            if held and (op in ('reserve', 'shrink', 'refused', 'push_self')):
                continue
            na, arg = a, []
            if op in ('push', 'push_move', 'emplace'):
                arg, na = [V()], a + 1
            elif op in ('app', 'app_l1', 'app_c', 'plus_c'):
                t = T()
                arg, na = [t], a + len(t)
            elif op in ('app_b', 'plus_b'):
                na = a + b
            elif op in ('set_l1', 'set_c'):
                t = T(M)
                arg, na = [t], len(t)
            elif op == 'set_b':
                na = b
            elif op in ('ins', 'ins_move'):
                arg, na = [rng.randrange(0, a + 1), V()], a + 1
            elif op == 'ins_s':
                t = T()
                arg, na = [rng.randrange(0, a + 1), t], a + len(t)
            elif op == 'ins_b':
                arg, na = [rng.randrange(0, a + 1)], a + b
            elif op == 'push_self':
                arg, na = [i], a + 1
            elif op == 'rep':
                k = rng.randrange(0, 4)
                arg, na = [k, V()], a + k
            elif op == 'erase':
                k = rng.randrange(0, a - i + 1) if S else 1
                arg, na = [i, k], a - k
            elif op == 'pop':
                na = a - 1
            elif op == 'resize':
                na = rng.randrange(0, M + 1)
                arg = [na, V()]
            elif op == 'clear':
                na = 0
            elif op == 'reserve':
                k = rng.randrange(a, M + 1) if a <= M else a
                if k < a or k > 300:
                    continue
                arg = [k]
            elif op == 'refused':
                arg = [rng.choice(['reserve', 'resize', 'insert'])]
            elif op == 'bpush':
                if b > 12:
                    continue
                arg = [V()]
                b += 1
            elif op == 'bpop':
                b -= 1
            elif op in ('eq_s', 'cmp_s', 'with_s'):
                arg = [T()]
            elif op == 'with_c':
                arg = [V()]
            elif op in ('search', 'rsearch', 'first_of', 'last_of', 'b'):
                w = rng.choice(['search', 'rsearch', 'first_of', 'last_of']) if op == 'b' else op
                p = rng.randrange(-1 if w in ('rsearch', 'last_of') else 0, a + 2)
                arg = [w, p] if op == 'b' else [T(2)[:3], p]
            elif op == 'find_c':
                arg = [V(), rng.randrange(0, a + 2)]
            elif op == 'copy':
                arg = [rng.randrange(0, a + 3), rng.randrange(0, a + 1)]
            elif op in ('get', 'put'):
                how = rng.choice(['ix', 'at', 'front', 'back', 'iter'] + (['lock'] if op == 'put' else []))
                i = 0 if how == 'front' else a - 1 if how == 'back' else i
                arg = [how, i] + ([V()] if op == 'put' else [])
            elif op == 'swap':
                j = rng.randrange(0, a)
                if i == j:
                    continue
                arg = [i, j]
            elif op == 'hold':
                arg = [rng.choice(['lock', 'clock']), i]
                held += 1
            elif op in ('hget', 'hput'):
                arg = [rng.randrange(1, held + 1)] + ([V()] if op == 'hput' else [])
            elif op == 'drop':
                held -= 1
            elif op == 'take':
                arg, acc = [i], i
            elif op == 'aget':
                arg = [rng.choice(['conv', 'cconv', 'lock', 'clock', 'copy'])]
            elif op in ('aput', 'acmp'):
                arg = [V()]
            elif op == 'bset':
                if a > 12:
                    continue
                b = a
            if na > 300 or held and na > hi:
                if op in ('bpush', 'bpop', 'hold', 'drop'):
                    pass
                else:
                    continue
            if op in ('reserve', 'shrink'):
                hi = arg[0] if op == 'reserve' else a
                if al == 'mv':
                    acc = -1
            elif na > hi:
                hi = na
                if al == 'mv':
                    acc = -1
            a = na
            out.append([op, arg])
        out.append(['end', []])
    return out


UNITS = [Unit('handle', 'Handle', 'handle.cpp',
              resets=[[k, al] for k in ('v4', 'str') for al in ('st', 'mv')] + [['v4', 'sz'], ['str', 'sz']],
              consts=dict(Vals={1, 2}, Bulk=Raw('{<<>>, <<1, 2>>}'), MaxLen=2),
              t_consts=dict(Vals={1, 2}, Bulk=Raw('{<<>>, <<1, 2>>, <<2>>}'), MaxLen=3),
              expand=expand, rand=rand, rand_n=12000, props=['Balanced'])]
