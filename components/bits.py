from vf import Unit, Raw

W = {'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8}
SW = [['swap', t, list(x[:w])] for t, w in W.items() for x in ([1, 2, 3, 4, 5, 6, 7, 8], [255] * 8, [128, 0, 0, 0, 0, 0, 0, 127], [0, 255, 0, 255, 1, 254, 3, 128])]


def rand(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice(['hash', 'hash', 'hash', 'flags', 'swap'])
        if k == 'swap':
            t = rng.choice(list(W))
            out += [['reset', ['swap', t, [rng.choice([0, 255, 128, rng.randrange(256)]) for _ in range(W[t])]]], ['swap', []], ['end', []]]
            continue
        out.append(['reset', [k]])
        m = 0
        for _ in range(40):
            if k == 'hash':
                op = rng.choice(['put', 'put', 'put', 'chain', 'cont', 'ident'])
                a = {'put': lambda: [rng.choice([0, 255, 128, rng.randrange(256), rng.randrange(1, 256), rng.randrange(1, 128)])], 'chain': lambda: [rng.randrange(0, m + 1)],
                     'cont': lambda: [rng.choice(['l1', 'l1n', 'l2', 'sv', 'vec', 'c64'])], 'ident': lambda: [rng.choice([-1, -2**31, rng.randrange(-2**31, 0), rng.randrange(0, 2**31 - 1)])]}[op]()
                m += op == 'put'
            else:
                op = rng.choice(['oreq', 'or', 'and', 'xor', 'set', 'eq', 'not', 'any'])
                a = [] if op in ('not', 'any') else [rng.choice([0, 255, 1 << rng.randrange(8), rng.randrange(256)])]
            out.append([op, a])
        out.append(['end', []])
    return out


UNITS = [Unit('bits', 'Bits', 'bits.cpp', resets=[['hash'], ['flags']] + SW, consts={'Bytes': {0, 1, 97, 255}, 'MaxLen': 3}, t_consts={'Bytes': {0, 1, 97, 128, 255}, 'MaxLen': 5},
              rand=rand, rand_n=6000, invariants=('TypeOK', 'Involution'))]
