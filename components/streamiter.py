from vf import Unit


def rand(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice(['span', 'str', 'src', 'src', 'obuf', 'ostr', 'back', 'filt'])
        m = {'obuf': lambda: rng.choice([1, 2, 3, 40]), 'ostr': lambda: 1, 'back': lambda: rng.choice([2, 3, 40]), 'filt': lambda: rng.randrange(1, 30)}.get(k, lambda: rng.choice([0, 1, 2, 5, 30, 300]))()
        out.append(['reset', [k, m]])
        V = lambda: rng.choice([255, 65, 10, 128, rng.randrange(1, 256)])
        if k in ('span', 'str', 'src'):
            ready, closed = (0, False) if k == 'src' else (m, True)
            for _ in range(40):
                if k == 'src' and rng.random() < .25:
                    if ready < m and not closed and rng.random() < .9:
                        j = rng.randrange(1, min(m - ready, 20) + 1)
                        out.append(['supply', [j]])
                        ready += j
                    elif rng.random() < .3:
                        out.append(['close', []])
                        closed = True
                    continue
                op = rng.choice(['new', 'new', 'def', 'cpy', 'pre', 'pre', 'post', 'post', 'deref', 'pcmp', 'cmp', 'pderef', 'bump'] + (['loop'] if closed and rng.random() < .2 else []))
                if op == 'new' and rng.random() < .6:
                    op = 'pre'
                out.append([op, [] if op in ('cmp', 'pderef', 'bump') else [rng.randrange(1, 3)]])
        else:
            sz = 0
            for i in range(40):
                if k == 'obuf':
                    out.append(rng.choice([['oput', [rng.choice(['=', '=', 'pre', 'post']), V()]], ['onone', [V()]], ['ofresh', []]] + [['oput', ['=', V()]]] * 3))
                elif k == 'ostr':
                    if sz > 180:
                        break
                    if rng.random() < .7:
                        v = rng.choice([0, 7, -1, rng.randrange(-2**31 + 1, 2**31)])
                        out.append(['ostr', [rng.choice(['=', 'star', 'pre', 'post']), v]])
                        sz += len(str(v))
                    else:
                        s = [V() for _ in range(rng.randrange(0, 5))]
                        out.append(['otext', [s]])
                        sz += len(s)
                elif k == 'back':
                    if i >= m:
                        break
                    out.append(['back', [rng.randrange(-99, 99)]])
                elif i < m:
                    out.append(['fat', []])
                    out.append(['fgo', [rng.choice(['pre', 'post'])]])
        out.append(['end', []])
    return out


UNITS = [Unit('streamiter', 'StreamIter', 'streamiter.cpp',
              resets=[[k, n] for k in ('span', 'str', 'src') for n in (0, 1, 3)] + [['obuf', 2], ['ostr', 1], ['back', 2], ['filt', 3]],
              t_resets=[[k, n] for k in ('span', 'str', 'src') for n in (0, 1, 2, 4, 7)] + [['obuf', 1], ['obuf', 3], ['ostr', 1], ['back', 3], ['filt', 6]],
              consts={'Vals': {65, 255}}, rand=rand, rand_n=5000, props=['Complete'])]
