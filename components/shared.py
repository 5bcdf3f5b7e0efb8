from vf import Unit


def rand(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice(['l1', 'l1d', 'l2', 'l2d'])
        ns = rng.choice([3, 8])
        out.append(['reset', [k, ns]])
        for _ in range(rng.choice([15, 60])):
            i, j = rng.randrange(1, ns + 1), rng.randrange(1, ns + 1)
            op = rng.choice(['construct', 'construct', 'mreset', 'new_m', 'new_m', 'new_s', 'mov_s', 'asg_m', 'asg_s', 'sreset', 'drop', 'swap', 'set_s', 'set_m',
                             'byval_m', 'byval_s', 'eq', 'new_s', 'burst'])
            if k in ('l2', 'l2d') and op == 'mreset' and rng.random() < .6:
                op = 'asg_s'
            if op in ('new_s', 'mov_s') and i == j:
                continue
            a = {'construct': [rng.randrange(100)], 'set_m': [rng.randrange(100)], 'set_s': [i, rng.randrange(100)],
                 'mreset': [], 'byval_m': []}.get(op) if op in ('construct', 'set_m', 'set_s', 'mreset', 'byval_m') else \
                [i, rng.choice([3, 254, 255, 256, 300, 1000, 40000])] if op == 'burst' else [i, j] if op in ('new_s', 'mov_s', 'asg_s', 'swap', 'eq') else [i]
            out.append([op, a])
        out.append(['end', []])
    return out


def rand_lr(rng, n):
    out = []
    while len(out) < n:
        ns = rng.choice([4, 12])
        out.append(['reset', ['lr', ns]])
        for _ in range(60):
            i, j = rng.randrange(1, ns + 1), rng.randrange(1, ns + 1)
            op = rng.choice(['new', 'copy', 'copy', 'move', 'drop'] + (['copy'] * 9 if ns > 4 else []))
            if i == j and op in ('copy', 'move'):
                continue
            out.append([op, [i] if op == 'drop' else [i, 1 if ns > 4 else rng.randrange(1, 4)] if op == 'new' else [i, j]])
        out.append(['end', []])
    return out


UNITS = [Unit('shared', 'SharedPtr', 'shared.cpp', resets=[['l1', 3], ['l1d', 3], ['l2', 3], ['l2d', 3]],
              consts=dict(Vals={0, 1}), t_consts=dict(Vals={0, 1, 2}), rand=rand, props=['DisposedOnce']),
         Unit('linked', 'LinkedRef', 'shared.cpp', resets=[['lr', 4]], consts=dict(K=2), t_consts=dict(K=4), rand=rand_lr)]
