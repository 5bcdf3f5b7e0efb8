from vf import Unit


def expand(cfg):
    if cfg[0] == 'map':
        return [cfg + [v] for v in (0, 1, 2)]
    if cfg[0] == 'set':
        return [cfg + [v] for v in (0, 1)]
    return [cfg]


def rand(rng, n):
    out = []
    while len(out) < n:
        kind = rng.choice(['map', 'map', 'map', 'mapl2', 'mapopt', 'set'])
        N = rng.choice([6, 8, 16, 16, 100])
        nk = rng.choice([6, 14, 30]) if N > 10 else 8
        mod = rng.choice([0, 0, 2, 3, 7])
        v = rng.randrange(3) if kind == 'map' else rng.randrange(2) if kind == 'set' else 0
        out.append(['reset', [kind, N, mod, nk, v]])
        for _ in range(rng.choice([40, 100, 200])):
            k = rng.randrange(1, nk + 1)
            if kind in ('mapopt', 'set', 'map') and rng.random() < .03:
                k = 0 if kind != 'mapopt' else rng.choice([0, -1])
            val = rng.choice([1 + 2 * rng.randrange(0, 100), rng.randrange(0, 1000)])
            if kind == 'set':
                op = rng.choice(['add', 'add', 'add', 'remove', 'remove', 'missing', 'eq'])
                a = [k]
                if op == 'eq':
                    a = [rng.sample(range(1, nk + 1), rng.randrange(0, 4))]
            else:
                op = rng.choice(['insert', 'insert_m', 'emplace', 'piecewise', 'piecewise_dup', 'try_emplace', 'insert_dup', 'insert_dup_m', 'insert_or_assign',
                                 'index_set', 'erase', 'erase', 'erase', 'erase_it', 'erase_it', 'erase_gc', 'erase_gc_l', 'gc', 'gc', 'bucket', 'missing', 'clear'])
                if op == 'clear':
                    if rng.random() < .85:
                        continue
                    a = []
                elif op in ('erase', 'missing', 'bucket'):
                    a = [k]
                elif op in ('erase_it', 'erase_gc', 'erase_gc_l', 'gc'):
                    a = [max(k, 1), rng.choice([0, 0, 1, 2])]
                else:
                    a = [k, val]
                if op == 'bucket' and k < 1:
                    continue
            out.append([op, a])
        out.append(['end', []])
    return out


UNITS = [Unit('hashmap', 'HashMap', ['hashmap.cpp'] + ['hashmap.cpp:PART=%d' % n for n in (4, 5, 6, 8, 16, 100)],
              resets=[['map', 6, 0, 3], ['mapl2', 5, 0, 3], ['mapopt', 4, 0, 3], ['set', 6, 0, 4], ['set', 8, 2, 4]],
              consts=dict(Keys={1, 2, 4}, Vals={5}),
              t_resets=[['map', 6, 0, 4], ['mapl2', 5, 0, 4], ['mapopt', 4, 0, 3], ['set', 8, 0, 5], ['set', 8, 2, 5]],
              t_consts=dict(Keys={1, 2, 4}, Vals={5, 9}),
              expand=expand, rand=rand, walk=30000, props=['Others', 'Stable'])]
