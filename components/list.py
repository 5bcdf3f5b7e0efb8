from vf import Unit

KINDS = ('ifwd', 'iback', 'hfwd', 'ofwd', 'dbl', 'hofwd', 'hdbl')


def rand(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice(KINDS)
        vals = [rng.randrange(1, 4) for _ in range(rng.choice([3, 6, 9]))] if k in ('ifwd', 'iback', 'hfwd') else []
        out.append(['reset', [k, vals]])
        X = lambda: rng.randrange(1, len(vals) + 1) if vals else rng.randrange(1, 4)
        cap = len(vals) or 9
        size = 0
        for _ in range(rng.choice([30, 80]) if k not in ('dbl', 'hdbl') else 14):
            P = lambda: rng.randrange(0, max(1, min(size, cap)))
            ops = {'ifwd': ['push_front', 'insert_after', 'insert_after', 'push_front', 'pop_front', 'erase_after', 'remove', 'remove_if', 'remove_n', 'step'],
                   'iback': ['push_front', 'push_back', 'push_back', 'pop_front', 'pop_front', 'step'],
                   'hfwd': ['push_front', 'push_front', 'insert_after', 'pop_front', 'erase_after', 'replace_after', 'clear'],
                   'ofwd': ['push_front', 'push_front_m', 'emplace_front', 'insert_after', 'pop_front', 'erase_after', 'remove_if', 'step'],
                   'dbl': ['push_front', 'push_back', 'insert', 'insert', 'push_front_m', 'push_back_m', 'emplace_front', 'step', 'step', 'dist']}[k.replace('hdbl', 'dbl').replace('hofwd', 'ofwd')]
            op = rng.choice(ops)
            if op == 'clear' and rng.random() < .8:
                op = 'push_front'
            if size > 12 and op in ('push_front', 'push_front_m', 'emplace_front', 'insert_after') and k in ('ofwd', 'hofwd'):
                op = 'pop_front'
            a = {'pop_front': lambda: [], 'clear': lambda: [], 'erase_after': lambda: [P()],
                 'insert_after': lambda: [P(), X()], 'insert': lambda: [rng.randrange(0, min(size, cap) + 1), X()], 'replace_after': lambda: [P(), X()],
                 'remove_n': lambda: [X(), rng.randrange(2)], 'remove': lambda: [rng.randrange(1, 4), rng.randrange(2)], 'remove_if': lambda: [rng.randrange(1, 4), rng.randrange(2)],
                 'step': lambda: [P(), rng.randrange(-4, 5) if k in ('dbl', 'hdbl') else rng.randrange(0, 4)],
                 'dist': lambda: sorted([P(), P()])}.get(op, lambda: [X()])()
            out.append([op, a])
            if op.startswith(('push', 'empl', 'insert')):
                size = min(size + 1, cap + 6)
            elif op in ('pop_front', 'erase_after'):
                size = max(0, size - 1)
            elif op == 'clear':
                size = 0
        out.append(['end', []])
    return out


UNITS = [Unit('list', 'List', 'list.cpp',
              resets=[['ifwd', [1, 1, 2, 1]], ['iback', [1, 2, 1]], ['hfwd', [1, 2, 3, 4]], ['ofwd', []], ['dbl', []], ['hofwd', []], ['hdbl', []]],
              consts=dict(Vals={1, 2}, MaxLen=4),
              t_resets=[['ifwd', [1, 1, 2, 1, 2]], ['iback', [1, 2, 1, 2]], ['hfwd', [1, 2, 3, 4, 5]], ['ofwd', []], ['dbl', []], ['hofwd', []], ['hdbl', []]],
              t_consts=dict(Vals={1, 2, 3}, MaxLen=5),
              rand=rand, props=['RemoveKeepsOrder'])]
