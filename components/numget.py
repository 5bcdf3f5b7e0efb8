import itertools
from vf import Unit

T8 = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']
C = lambda s: [ord(c) for c in s]
A = '-19f .'
TEXT = [C(''.join(t)) for n in range(4) for t in itertools.product(A, repeat=n)]
B1 = [C(t) for t in ('t', 'true', 'trueX', 'tru', 'trUe', 'false', 'falset', 'fa', 'xyz', 'zzzzzzzzzz', 'zrue', '0', '1', '10', '2', ' true false', '0 1 ', 'faKse')]
N1 = [C(t) for t in ('127', '128', '-128', '-129', '255 256', '99999/1', '1.2.3', '-.5.', '32767,32768', '65535 65536x', '-32768 -32769', '7F 80 ff 100', '177 200 377 400',
                     '2147483647 2147483648', '-2147483648 -2147483649', '4294967295 4294967296', '9223372036854775807 9223372036854775808',
                     '-9223372036854775808 -9223372036854775809', '18446744073709551615 18446744073709551616', '0000000000000000000000000000000000000000012x')]
TXTS = TEXT + B1 + N1
I8 = [['iter', t, b] for t in ('i8', 'u8') for b in (8, 10, 16)]
CH = [C(''.join(t)) for n in range(4) for t in itertools.product('-1z9', repeat=n)] + N1
D = {8: '01234567', 10: '0123456789', 16: '0123456789abcdefABCDEF', 2: '01', 36: '0123456789azAZkK'}


def near(rng, b, t=None):
    """digits at a type's limit in base b, give or take"""
    t = t or rng.choice(T8)
    bits, sg = int(t[1:]), t[0] == 'i'
    v = (1 << (bits - sg)) + rng.randrange(-2, 3)
    if rng.random() < .3:
        v = v * b + rng.randrange(b)
    if rng.random() < .3:
        v = rng.randrange(0, v + 1)
    out = ''
    while v:
        c = '0123456789abcdefghijklmnopqrstuvwxyz'[v % b]
        out = (c if rng.random() < .5 else c.upper()) + out
        v //= b
    return ('-' if rng.random() < .4 else '') + '0' * rng.choice([0, 0, 0, 1, 30]) + out


def rand(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice(['iter', 'range', 'chars', 'l1', 'l2', 'span'])
        if k == 'iter':
            t, b = rng.choice(T8), rng.choice([8, 10, 16])
            out.append(['reset', [k, t, b]])
            for _ in range(6):
                x = near(rng, b) if rng.random() < .7 else ''.join(rng.choice(D[b] + '-') for _ in range(rng.randrange(0, 30)))
                out += [['feed', [ord(c)]] for c in x + rng.choice(['', ' ', '/', ':', 'g', '@', '`', '-', '.'])]
                out.append(['again', []])
            out.append(['end', []])
            continue
        b = rng.choice([8, 10, 16] if k != 'chars' else [2, 8, 10, 16, 36])
        if rng.random() < .5:
            # every number read as the type whose limit it is at (mostly)
            txt, ops = '', []
            for _ in range(4):
                t = rng.choice(T8)
                x = near(rng, b, t) + rng.choice(' \n\t') if rng.random() < .9 else rng.choice(['- ', 'x', '', ' '])
                if len(txt + x) > 290:
                    break
                txt += x
                u = t if rng.random() < .8 else rng.choice(T8)
                ops += [['from', [u, b]]] if k == 'chars' else [['read', [u]]]
                ops += [['clear', []]] if k not in ('range', 'chars') and rng.random() < .8 else []
                ops += [['skip', []]] * rng.choice([1, 1, 1, 0])
            out.append(['reset', [k, C(txt)]])
            out += ([] if k == 'chars' else [['base', [b]]]) + ops + [['end', []]]
            continue
        txt = ''
        for _ in range(rng.choice([1, 3, 6])):
            q = rng.random()
            txt += near(rng, b) if q < .6 else rng.choice(['true', 'false', '1', '0', 'tru', 'x']) if q < .7 else '%d.%03d' % (rng.randrange(100), rng.randrange(1000)) if q < .85 else \
                ''.join(chr(rng.randrange(1, 256)) for _ in range(3))
            txt += rng.choice([' ', ' ', '\n', '  ', '/', '', ':', 'g'])
        txt = txt[:290]
        out.append(['reset', [k, C(txt)]])
        if k != 'chars':
            out.append(['base', [b]])
        for _ in range(rng.choice([8, 16])):
            if k == 'chars':
                out.append(rng.choice([['from', [rng.choice(T8), rng.choice([b, b, 2, 8, 10, 16, 36])]], ['skip', []]]))
                continue
            x = rng.random()
            if x < .6:
                out.append(['read', [rng.choice(T8 + ['b', 'f', 'd'])]])
            elif x < .7:
                out.append(['base', [rng.choice([8, 10, 16])]])
            elif x < .75:
                out.append(['alpha', [rng.random() < .5]])
            elif x < .85 and k != 'range':
                out.append(['clear', []])
            else:
                out.append(['skip', []])
        out.append(['end', []])
    return out


def strto_rand(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice(['l1', 'l1w', 'l1w', 'l2'])
        out.append(['reset', [k]])
        for _ in range(30):
            b = rng.choice([0, 2, 8, 10, 10, 16, 36, rng.randrange(2, 37)])
            x = near(rng, b or rng.choice([8, 10, 16])) if rng.random() < .8 else ''.join(rng.choice('0129fFzZ-+ xX') for _ in range(rng.randrange(8)))
            if rng.random() < .3:
                x = x.replace('-', '-0x') if '-' in x else rng.choice(['0x', '0X', '+', '+0', '0']) + x
            x = rng.choice(['', '', ' ', '\t \n', '\v\f\r']) + x + rng.choice(['', '', ' ', 'g', '/', '.', '-'])
            if b in (0, 2):
                x = x.replace('b', 'a').replace('B', 'A')     # 0b: C23 and before differ
            x = x[:15 if k == 'l1' else 100]
            out.append([rng.choice(['stol', 'stoul', 'stoi']), [C(x), b, rng.random() < .8 or b != 10]])
        out.append(['end', []])
    return out


FEED = set(C('-01278af9./g'))
UNITS = [
    Unit('numget', 'NumGet', 'numget.cpp', resets=[[k, t] for k in ('range', 'l1', 'l2', 'span') for t in TXTS] + [['chars', t] for t in CH] + I8,
         t_resets=[[k, t] for k in ('range', 'l1', 'l2', 'span') for t in TXTS] + [['chars', t] for t in CH] + I8 + [['iter', t, b] for t in ('i16', 'u16') for b in (8, 10, 16)],
         consts={'Feed': FEED, 'ReadTypes': {'i8', 'u8', 'b', 'd'}, 'FromTypes': {'i8', 'u16'}, 'Bases': {2, 10, 36}},
         t_consts={'ReadTypes': set(T8) | {'b', 'f', 'd'}, 'FromTypes': set(T8), 'Bases': {2, 8, 10, 16, 36}},
         rand=rand, rand_n=8000, props=['Grows', 'Forward', 'Sticky', 'ReadsOrFails']),
    Unit('strto', 'StrTo', 'strto.cpp', resets=[['l1'], ['l2']], consts={'Alphabet': set(C(' -+0x7g')), 'MaxLen': 3, 'Bases': {0, 8, 10, 16}},
         t_consts={'Alphabet': set(C(' -+0x79fF')), 'MaxLen': 4}, rand=strto_rand, rand_n=3000, props=['Consumes']),
]
