from vf import Unit

CALLEES = ['add', 'peek', 'lq', 'rq', 'nx', 'vir', 'ref', 'xval', 'nothing', 'data', 'cdata', 'fun', 'fptr', 'lam', 'fref', 'fxv', 'ov', 'cov', 'rov']
TARGETS = ['l', 'cl', 'r', 'cr', 'p', 'cp', 'rp', 'sp', 'rsp', 'w', 'rw', 'cww']


def rand(rng, n):
    out = []
    while len(out) < n:
        out.append(['reset', ['c']])
        for _ in range(40):
            o = rng.choice(['inv', 'inv', 'inv', 'through', 'bind', 'assign', 'copy', 'asconst', 'put_get', 'put_conv', 'put_whole', 'get', 'conv', 'sig'])
            one = lambda: rng.randrange(1, 3)
            if o == 'inv':
                c = rng.choice(CALLEES)
                a = [c, rng.choice(TARGETS), one(), rng.randrange(6) if c == 'nx' else rng.choice([0, 1, 2, 3, 5, 9]), rng.choice('lr')]
            elif o == 'through':
                a = [rng.choice([t for t in TARGETS if t[0] != 'c']), one(), rng.randrange(3)]
            elif o == 'bind':
                k = rng.randrange(1, 4)
                a = [k, one(), rng.choice(['ctor', 'ref', 'cref'] if k == 3 else ['ctor', 'ref'])]
            elif o in ('assign', 'copy'):
                a = [one(), one()]
            elif o == 'asconst':
                a = [one()]
            elif o[:3] == 'put':
                a = [one(), rng.randrange(3)]
            elif o == 'sig':
                a = [rng.choice(['fun', 'fref', 'method', 'cmethod', 'functor', 'model']), rng.choice(['void', 'int', 'rint']), [rng.choice(['int', 'double', 'rint', 'cpA']) for _ in range(rng.randrange(4))]]
            else:
                a = [rng.randrange(1, 4)]
            out.append([o, a])
        out.append(['end', []])
    return out


UNITS = [Unit('call', 'Call', 'call.cpp', resets=[['c']], rand=rand, props=['Rebinds', 'OneObject', 'KeepsConst'])]
