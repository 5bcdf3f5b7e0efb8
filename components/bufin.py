from vf import Unit


def rand(rng, n):
    out = []
    while len(out) < n:
        sz = rng.choice([1, 2, 3, 4, 8, 64, 300])
        out.append(['reset', ['b1', sz, rng.choice([1, 2, 3, 1000]), 7, rng.choice([0, -1])]])
        for _ in range(rng.choice([20, 80])):
            op = rng.choice(['sgetc', 'sbumpc', 'snextc', 'sgetn', 'sgetn', 'sync', 'supply', 'supply', 'supply'])
            out.append([op, [rng.randrange(0, 2 * sz + 2)] if op == 'sgetn' else [rng.randrange(1, sz + 3)] if op == 'supply' else []])
        out.append(['end', []])
    return out


UNITS = [Unit('bufin', 'BufIn', 'bufin.cpp', resets=[['b1', n, p, 5, -(p == 2)] for n in (1, 2, 3) for p in (1, 2, 100)],
              t_resets=[['b1', n, p, 7, -(p == 2)] for n in (1, 2, 3, 4) for p in (1, 2, 3, 100)],
              libsrc=['src/estd/ext/willemt/bipbuffer/bipbuffer.c'], rand=rand, props=['Conserved'], rand_n=6000)]
