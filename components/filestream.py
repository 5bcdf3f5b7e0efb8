import itertools
from vf import Unit

A = [97, 255, 10, 50]
T1 = [list(t) for n in (0, 1, 2) for t in itertools.product(A, repeat=n)]
T2 = [[32, 97, 98, 9, 255], [97, 10, 10, 98], [32, 49, 50, 10, 55], [32, 9, 32], [49, 97, 51, 32, 52]]
LIB = ['src/estd/port/posix/streambuf.cpp']


def reading(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice(['file', 'pipe', 'none'])
        t = [rng.choice([97, 98, 49, 50, 51, 32, 10, 255, 128, 9, 0]) for _ in range(rng.choice([4, 12, 60, 300]))]
        t = [c for i, c in enumerate(t) if not (i > 6 and all(x in (48, 49, 50, 51) for x in t[i - 7:i + 1]))]
        out.append(['reset', [k, t]])
        for _ in range(rng.choice([12, 40])):
            m = rng.choice([2, 8, 100])
            op = rng.choice(['get', 'peek', 'read', 'getline', 'ignore', 'clear', 'clear', 'ws', 'char', 'num', 'sync', 'sgetc', 'sbumpc', 'snextc', 'sgetn', 'fgetc', 'vgetn'] + ['loop'] * (rng.random() < .1))
            a = []
            if op in ('read', 'sgetn', 'vgetn'):
                a = [rng.randrange(0, m)]
            elif op == 'getline':
                a = [rng.randrange(1, m + 1), rng.choice([10, 97, 255])]
            elif op == 'ignore':
                a = [rng.randrange(0, m), rng.choice([-1, 10, 97, 255])]
            elif op == 'clear':
                a = [0]
            out.append([op, a])
        out.append(['end', []])
    return out


def writing(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice(['full', 'none', 'vfull', 'vnone', 'vhic', 'vstr'])
        room = rng.choice([0, 5, 99])
        full, direct = k in ('full', 'vfull', 'vhic'), k in ('full', 'none')
        out.append(['reset', [k, room]])
        sz, good, unit = 0, True, False
        for _ in range(rng.choice([12, 40])):
            b = lambda: rng.choice([97, 98, 10, 255, 128, 1 if k == 'vstr' else 0, 32])
            op = rng.choice(['sputc', 'sputn', 'sync'] + (['fputs'] if k not in ('vstr', 'vhic') else []) + (['put', 'chr', 'write', 'str', 'num', 'flush', 'endl', 'clear', 'unit'] if direct else []))
            if op in ('put', 'chr', 'write', 'str', 'num', 'flush', 'endl') and not good:
                op = 'clear'
            a, m = [], 0
            if op in ('put', 'chr', 'sputc'):
                a, m = [b()], 1
            elif op in ('write', 'sputn'):
                a = [[b() for _ in range(rng.choice([0, 1, 3, 20]))]]
                m = len(a[0])
            elif op in ('str', 'fputs'):
                a = [[b() or 1 for _ in range(rng.choice([0, 1, 3, 20]))]]
                m = len(a[0])
            elif op == 'unit':
                a = [rng.random() < .3]
                unit = a[0]
            elif op == 'num':
                a = [rng.randrange(-10 ** 6, 10 ** 6)]
                m = len(str(a[0]))
            elif op == 'endl':
                m = 1
            out.append([op, a])
            took = full or m <= room - sz
            sz += m if took else room - sz
            if op in ('put', 'chr', 'write', 'str', 'num', 'endl', 'flush'):
                good = took and (op not in ('flush', 'endl') and not unit or sz <= room)
            if op == 'clear':
                good = True
            if (op in ('sync', 'flush', 'endl') or unit and op in ('put', 'chr', 'write', 'str', 'num')) and sz > room and k != 'vhic' or sz > 250:
                break
        out.append(['end', []])
    return out


UNITS = [Unit('posix_in', 'FileIn', 'posix_in.cpp', resets=[[k, t] for k in ('file', 'pipe', 'none') for t in T1 + T2], consts={'MaxN': 3}, t_consts={'MaxN': 5}, rand=reading, libsrc=LIB, props=['Monotone', 'Sticky', 'Counted']),
         Unit('posix_out', 'FileOut', 'posix_out.cpp', resets=[[k, n] for k in ('full', 'none', 'vfull', 'vnone', 'vhic', 'vstr') for n in (0, 1, 3, 5)], consts={'MaxL': 3}, t_consts={'MaxL': 4}, rand=writing, libsrc=LIB, props=['Kept', 'Flushed'])]
