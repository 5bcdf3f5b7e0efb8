from vf import Unit

H = lambda v: [int(c, 16) for c in '%x' % v] if v else []
N = lambda t, v: (t, v < 0, tuple(H(abs(v))))
LIM = [N(t, v) for bits in (8, 16, 32, 64) for t, vs in (('i%d' % bits, (-2 ** (bits - 1), -2 ** (bits - 1) + 1, 2 ** (bits - 1) - 1)), ('u%d' % bits, (2 ** bits - 1, 2 ** (bits - 1)))) for v in vs]
SM = [N('i8', 0), N('i8', -128), N('u8', 255), N('i32', -1), N('u16', 65535), N('i32', 10)]
STREAM = {N('i8', -128), N('u16', 65535), N('i32', 0)}


def rand(rng, n):
    out = []

    def num():
        b = rng.choice([8, 16, 32, 64])
        s = rng.random() < .5
        v = rng.choice([0, 1, 2 ** (b - 1) - 1, rng.getrandbits(b - 1), rng.getrandbits(rng.randrange(1, b))])
        if s:
            v = rng.choice([v, -v, -2 ** (b - 1)])
        elif rng.random() < .3:
            v = 2 ** b - 1 - rng.choice([0, rng.getrandbits(b)])
        return [('i' if s else 'u') + str(b), v < 0, H(abs(v))]
    while len(out) < n:
        k = rng.choice(['l1', 'span', 'sink', 'conv'])
        cap = {'l1': rng.choice([3, 20, 250]), 'conv': 0}.get(k, rng.choice([0, 1, 7, 30, 200]))
        out.append(['reset', [k, cap]])
        txt = lambda z: [rng.choice([97, 98, 48, 255, 128, 9]) for _ in range(rng.randrange(0, z))]
        for _ in range(rng.choice([8, 30])):
            x = num()
            if k == 'conv':
                op = rng.choice(['to', 'to', 'tostr', 'toarr', 'numput', 'boolput'])
                a = {'to': lambda: [rng.choice(['chars', 'opt', 'upper', 'exp']), x, rng.choice([2, 3, 8, 10, 10, 16, 16, 20, 36]), rng.choice([0, 1, 2, 3, 4, 10, 11, 19, 20, 21, 22, 64, 70])],
                     'tostr': lambda: [rng.choice(['str', 'into']), x], 'toarr': lambda: [x, rng.choice([2, 8, 10, 16, 36]), rng.choice([3, 12, 69])],
                     'numput': lambda: [x, rng.choice([8, 10, 16]), rng.random() < .5, rng.randrange(0, 16), rng.choice([32, 48, 120]), rng.random() < .5],
                     'boolput': lambda: [rng.random() < .5, rng.random() < .5]}[op]()
            else:
                op = rng.choice(['num', 'num', 'char', 'put', 'write', 'str', 'str', 'ptr', 'endl', 'flush', 'setw', 'setw', 'fill', 'base', 'upper', 'left', 'unit', 'break', 'clear', 'clear', 'seekp', 'tellp'])
                a = {'num': lambda: x, 'char': lambda: [rng.choice([97, 255, 10 if k == 'l1' else 0])], 'put': lambda: [rng.choice([97, 255, 10 if k == 'l1' else 0])], 'write': lambda: txt(rng.choice([3, 40])),
                     'str': lambda: [rng.choice(['c', 'l1', 'l2', 'l3']), txt(rng.choice([3, 40]))], 'ptr': lambda: H(rng.getrandbits(rng.choice([4, 32, 64]))), 'setw': lambda: [rng.randrange(0, 16)],
                     'fill': lambda: [rng.randrange(32, 96)], 'base': lambda: [rng.choice([8, 10, 16])],
                     'seekp': lambda: [rng.choice([0, 1, -1, rng.randrange(-9, 9)]), rng.randrange(0, 3)]}.get(op, lambda: [rng.random() < .5] if op in ('upper', 'left', 'unit', 'break') else [])()
                if op == 'seekp' and k != 'span' or op == 'break' and k != 'sink':
                    continue
                if op == 'unit':
                    if k == 'sink':
                        out.append(['break', [False]])
            out.append([op, a])
        out.append(['end', []])
    return out


S = {'Rooms': {0}, 'ToBases': {10}}
UNITS = [
    # text, padding and overflow
    Unit('ostream', 'OStream', 'ostream.cpp', resets=[['l1', 3], ['span', 2]], t_resets=[['l1', 4], ['span', 3]],
         consts=dict(S, Nums={N('i8', -1)}, Texts={(), (98, 99)}, Widths={0, 2}, Fills={95}, Bases={10}, Flags={'left'}),
         t_consts={'Widths': {0, 2, 3}, 'Nums': {N('i8', -1), N('u8', 10)}},
         rand=rand, rand_n=9000, props=['Grows', 'Sticky', 'NoLoss']),
    # a device which must be flushed and may refuse
    Unit('sink', 'OStream', 'ostream.cpp', resets=[['sink', 2]], t_resets=[['sink', 3]],
         consts=dict(S, Nums={N('u8', 1)}, Texts={(), (98, 99)}, Widths={0, 2}, Fills={95}, Bases={10}, Flags={'unit', 'break'}), props=['Grows', 'Sticky', 'NoLoss']),
    Unit('conv', 'OStream', 'ostream.cpp', resets=[['conv', 0]],
         consts={'Nums': set(LIM + SM), 'Texts': set(), 'Widths': {0, 4, 15}, 'Fills': {32}, 'Rooms': {0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 16, 19, 20, 22, 32, 64}, 'ToBases': {2, 8, 10, 16, 36},
                 'Bases': {10}, 'Flags': set()}, rand=None),
]
