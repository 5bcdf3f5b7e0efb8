from vf import Unit

# cfg[2] selects the element type; the specification ignores it


def expand(cfg):
    return [cfg + [t] for t in (0, 1, 2)]


def rand(rng, n):
    out = []
    # fill, drain part, refill past the end of the storage, drain
    for kind in ('deque', 'queue'):
        for cap in (4, 16, 31, 300):
            out.append(['reset', [kind, cap, rng.randrange(3)]])
            k = rng.randrange(1, cap // 3 + 1)
            for m, op in ((cap + 1, 'push_back'), (k, 'pop_front'), (k + 1, 'push_back_m'), (min(9, cap), 'pop_front')):
                out += [[op, [rng.randrange(256)] if op[1] == 'u' else []] for _ in range(m)]
            out.append(['end', []])
    while len(out) < n:
        kind = rng.choice(['deque', 'deque', 'queue', 'stack'])
        cap = rng.choice([1, 2, 3, 4, 7, 7, 16, 16, 31, 300])
        out.append(['reset', [kind, cap, rng.randrange(3)]])
        V = lambda: rng.randrange(0, 256)
        bias = rng.random() if cap < 100 else .97
        UPS = ['push_back', 'push_back_m', 'push_front', 'emplace_back', 'emplace_front']
        DOWNS = ['pop_back', 'pop_front', 'set_front', 'set_back', 'move']
        ups, downs = UPS, DOWNS
        for _ in range(rng.choice([30, 80, 200]) if cap < 100 else 420):
            up = rng.random() < bias
            if rng.random() < (.03 if cap < 100 else .005):
                bias = rng.random()
                # long runs of one kind reach a full container whose front never moved
                ups = rng.choice([UPS, ['push_back'], ['push_back_m', 'push_back'], ['push_front'], ['emplace_back'], ['emplace_front']])
                downs = rng.choice([DOWNS, DOWNS, ['pop_front'], ['pop_back']])
            op = rng.choice(ups if up else downs)
            out.append([op, [] if op in ('pop_back', 'pop_front', 'move') else [V()]])
        out.append(['end', []])
    return out


UNITS = [Unit('deque', 'Deque', 'deque.cpp',
              resets=[[k, n] for k in ('deque', 'queue', 'stack') for n in (1, 2, 3)],
              consts=dict(Vals={1, 2}),
              t_resets=[[k, n] for k in ('deque', 'queue', 'stack') for n in (1, 2, 3, 4)],
              t_consts=dict(Vals={1, 2, 3}),
              expand=expand, rand=rand, walk=30000, props=['Fifo', 'Kept'])]
