from vf import Unit

SCALES = ['', 'deci', 'centi', 'milli', 'micro', 'nano', 'deca', 'kilo', 'mega', 'giga', 'tera']
REPS = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'd']
RESETS = [['hops', '', r] for r in REPS] + [['bytes', 'Ki', r] for r in REPS] + [['percent', 'centi', r] for r in ('i32', 'd')]
RESETS += [[t, s, 'i32'] for t in ('bytes', 'percent', 'hops') for s in SCALES if [t, s, 'i32'] not in RESETS and [t, s] != ['percent', 'centi']]
RESETS += [['bytes', 'Mi', 'i32'], ['bytes', 'Gi', 'i32'], ['percent', '', 'd']]
LIM = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-32768, 32767), 'u16': (0, 65535), 'u32': (0, 10**9), 'u64': (0, 10**9)}


def rand(rng, n):
    out = []
    while len(out) < n:
        c = rng.choice(RESETS)
        out.append(['reset', c])
        lo, hi = LIM.get(c[2], (-10**9, 10**9))
        val = lambda: rng.choice([rng.randrange(lo, hi + 1), rng.randrange(max(lo, -300), min(hi, 300) + 1), lo, hi, 0])
        small = lambda: rng.choice([rng.randrange(max(lo, -9), 10), rng.randrange(max(lo, -300), min(hi, 300) + 1)])
        for _ in range(30):
            op = rng.choice(['set', 'set', 'addq', 'subq', 'add', 'sub', 'cmp', 'addk', 'subk', 'inc', 'neg', 'write', 'write', 'write', 'write', 'setw', 'base', 'pct', 'share'])
            a = {'set': lambda: [val()], 'addq': lambda: [small()], 'subq': lambda: [small()], 'add': lambda: [small()], 'sub': lambda: [small()],
                 'cmp': lambda: [rng.choice([val(), small()])], 'addk': lambda: [rng.randrange(-1000, 1001)], 'subk': lambda: [rng.randrange(-1000, 1001)],
                 'inc': lambda: [], 'neg': lambda: [], 'write': lambda: [rng.choice(['full', 'abbrev', 'spaced', 'put', 'putfull'])],
                 'setw': lambda: [rng.randrange(16)], 'base': lambda: [rng.choice([8, 10, 16]), rng.random() < .5],
                 'pct': lambda: [rng.randrange(-1000, 1001), rng.randrange(3), rng.randrange(-100000, 100001), rng.randrange(-100000, 100001)],
                 'share': lambda: [rng.randrange(-1000, 1001), rng.randrange(3), rng.randrange(-100000, 100001)]}[op]()
            out.append([op, a])
        out.append(['end', []])
    return out


UNITS = [Unit('quantity', 'Quantity', 'quantity.cpp', resets=RESETS, consts=dict(NUMS={-1, 0, 1, 7, 64, 100}, WIDTHS={3}, BASES={10, 16}, VALS={-1000, -64, -1, 0, 1, 7, 64, 100, 1000}),
              t_consts=dict(NUMS={-64, -7, -2, -1, 0, 1, 7, 9, 40, 64, 100, 120}, WIDTHS={1, 6, 15}, BASES={8, 10, 16}, VALS={-1000, -128, -100, -65, -64, -7, -2, -1, 0, 1, 2, 7, 9, 40, 63, 64, 65, 100, 120, 127, 1000}), rand=rand, props=['OneShot'])]
