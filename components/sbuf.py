from vf import Unit


def rand(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice(['span', 'l2', 'l1', 'l1n', 'l3', 'ol1', 'ospan', 'ospan32'])
        ins = k in ('span', 'l2', 'l1', 'l1n', 'l3')
        outs = k not in ('span', 'l2')
        cap = rng.choice([2, 3, 4, 20, 20, 300])
        size = rng.choice([0, 1, 5, 30, 255, 256, 300, 3000]) if not outs else 0
        if not outs and rng.random() < .02:
            size = 70000
        out.append(['reset', [k, size, cap if outs else 0]])
        m = max(cap, 2) if outs else size + 2
        for _ in range(rng.choice([10, 40])):
            b = min(m, rng.choice([2, 20, 400]))
            V = lambda: rng.choice([255, 254, 127, 128, 1, 10, 32, 65, 97, 122])
            if k.startswith('ospan') and rng.random() < .05:
                out.append(['setbuf', [rng.choice([cap, cap, rng.randrange(1, 400)])]])
            elif rng.random() < .2:
                out.append(['seek', [rng.choice([0, rng.randrange(-b, b + 1), rng.randrange(-m, m + 1), 2 * m + 9, -m - 1]), rng.choice([0, 1, 2, 2]), rng.choice([4, 8, 12])]])
            elif outs and (not ins or rng.random() < .5):
                if rng.random() < .5:
                    out.append(['sputc', [V()]])
                else:
                    out.append(['sputn', [V() for _ in range(rng.randrange(0, b + 3))]])
            elif ins:
                op = rng.choice(['sgetc', 'sbumpc', 'snextc', 'sungetc', 'sungetc', 'pubsync', 'sgetn', 'sgetn', 'sbumpc'])
                out.append([op, [rng.randrange(0, b + 3)] if op == 'sgetn' else []])
        if size == 70000:
            out += [['sgetn', [65530]]] + [['sbumpc', []]] * 12 + [['seek', [69998, 0, 4]]] + [['sbumpc', []]] * 4
        out.append(['end', []])
    return out


UNITS = [Unit('sbuf', 'StreamBuf', 'sbuf.cpp',
              resets=[['span', n, 0] for n in (0, 1, 4)] + [['l2', n, 0] for n in (0, 1, 4)] +
              [[k, 0, c] for k in ('l1', 'l1n', 'l3', 'ol1', 'ospan', 'ospan32') for c in (2, 3)],
              consts=dict(Vals={1, 255}, MaxArg=4),
              t_resets=[['span', n, 0] for n in (0, 1, 2, 4, 7)] + [['l2', n, 0] for n in (0, 1, 2, 4, 7)] +
              [[k, 0, c] for k in ('l1', 'l1n', 'l3', 'ol1', 'ospan', 'ospan32') for c in (2, 3, 4)],
              t_consts=dict(Vals={1, 255}, MaxArg=5), rand=rand, props=['Stable'], rand_n=6000)]
