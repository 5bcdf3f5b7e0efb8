from vf import Unit, Raw

VARS = ['l1', 'l2', 'l3', 'l1u8', 'l3u8', 'l1pod', 'l2pod']


def expand(cfg):
    v, n = cfg[:2]
    if v == 'l1':
        return [[x, n] for x in ('l1', 'l1u8', 'l1pod')]
    if v == 'l2':
        return [[x, n] for x in ('l2', 'l3', 'l3u8', 'l2pod')]
    return [cfg]


def rand(rng, n):
    out = []
    while len(out) < n:
        var = rng.choice(VARS + ['dyn', 'dyn'])
        cap = rng.choice([4, 9, 13, 24] + ([40, 70] if var == 'dyn' else []))
        big = rng.random() < .03
        if big:
            cap = 300
        size = 0
        if rng.random() < .1:
            var = rng.choice(['l1i', 'l2a'])
            cap = min(cap, 24)
            ini = [rng.randrange(0, 100) for _ in range(3 if var == 'l1i' else rng.randrange(0, cap + 1))]
            size = len(ini)
            out.append(['reset', [var, cap, ini]])
        else:
            out.append(['reset', [var, cap]])
        W = rng.choice([3, 100])
        V = lambda: rng.randrange(0, W)
        room = lambda: cap - size
        S = lambda m=None: [V() for _ in range((rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8]) if not big else rng.choice([1, 50, 130])) if m is None else rng.randrange(0, m))]
        T = lambda: S()[:max(0, room())]
        for _ in range(rng.choice([30, 80, 150]) if not big else 25):
            P = lambda: rng.randrange(0, max(1, min(cap, size + 1)) + 1)
            op = rng.choice(['push_back', 'push_move', 'emplace_back', 'pop_back', 'append_ptr', 'append_arr', 'assign',
                             'insert', 'insert', 'insert_move', 'insert_range', 'insert_range', 'erase', 'erase', 'resize', 'clear',
                             'set_ix', 'set_it', 'front', 'back', 'at', 'reverse_iter', 'eq', 'find', 'copy', 'iter',
                             'copy_indep', 'reserve', 'shrink_to_fit', 'push_self', 'insert_self', 'append_self', 'search', 'rsearch', 'first_of', 'last_of', 'step'])
            if op in ('clear', 'resize', 'assign') and rng.random() < .7:
                continue
            if op in ('push_back', 'push_move', 'emplace_back', 'insert', 'insert_move', 'push_self', 'insert_self') and room() <= 0:
                op = rng.choice(['erase', 'pop_back', 'erase', 'eq', 'iter'])
            if op in ('erase', 'pop_back', 'front', 'back', 'set_ix', 'set_it', 'at', 'push_self', 'insert_self', 'step') and size == 0:
                op = 'push_back'
            N = lambda: rng.choice([S(), [V()], []])
            P1 = lambda: rng.randrange(0, max(1, size))
            P0 = lambda: rng.randrange(0, size + 1)
            a = {'push_back': lambda: [V()], 'push_move': lambda: [V()], 'emplace_back': lambda: [V()],
                 'append_ptr': lambda: [T()], 'append_arr': lambda: [T()], 'assign': lambda: [S(cap + 1)],
                 'insert': lambda: [P0(), V()], 'insert_move': lambda: [P0(), V()], 'insert_range': lambda: [P0(), T()],
                 'erase': lambda: [P1()], 'resize': lambda: [P(), V()], 'set_ix': lambda: [P1(), V()], 'set_it': lambda: [P1(), V()],
                 'at': lambda: [P1()], 'eq': lambda: [S()], 'find': lambda: [V()], 'copy': lambda: [P(), P()],
                 'iter': lambda: [P(), P()], 'copy_indep': lambda: [V()], 'reserve': lambda: [rng.choice([P() + 1, rng.randrange(1, cap + 2)])],
                 'push_self': lambda: [P1()], 'insert_self': lambda: [P0(), P1()], 'step': lambda: [P1()],
                 'search': lambda: [N(), P()], 'first_of': lambda: [N(), P()], 'rsearch': lambda: [N(), P() - 1], 'last_of': lambda: [N(), P() - 1]}.get(op, lambda: [])()
            out.append([op, a])
            size += {'push_back': 1, 'push_move': 1, 'emplace_back': 1, 'insert': 1, 'insert_move': 1, 'push_self': 1, 'insert_self': 1, 'pop_back': -1, 'erase': -1}.get(op, 0)
            if op in ('append_ptr', 'append_arr', 'insert_range'):
                size += len(a[-1])
            elif op == 'append_self':
                size = size * 2 if size * 2 <= cap and var != 'dyn' else size
            elif op == 'assign':
                size = len(a[0]) if len(a[0]) <= cap else size
            elif op == 'resize':
                size = a[0] if a[0] <= cap else size
            elif op == 'clear':
                size = 0
        out.append(['end', []])
    return out


UNITS = [Unit('vector', 'Vector', ['vector.cpp'] + ['vector.cpp:PART=%d' % n for n in (3, 4, 9, 13, 24, 300)],
              resets=[['l1', 3], ['l2', 3], ['dyn', 3], ['l1i', 3, [1, 2, 1]], ['l2a', 3, [2, 1]]],
              consts=dict(Vals={1, 2}, Bulk=Raw('{<<>>, <<1, 2>>, <<2, 1, 1>>}')),
              t_resets=[['l1', 4], ['l2', 4], ['dyn', 4], ['l1i', 4, [1, 2, 1]], ['l2a', 4, [2, 1]]],
              t_consts=dict(Vals={1, 2, 3}, Bulk=Raw('{<<>>, <<3>>, <<1, 2>>, <<2, 1, 1>>, <<1, 3, 2, 2>>}')),
              expand=expand, rand=rand, rand_n=20000, props=['RemoveKeepsOrder'])]
