from vf import Unit


def rand(rng, n):
    out = []
    while len(out) < n:
        sz = rng.choice([1, 2, 3, 4, 8, 64, 300])
        out.append(['reset', [rng.choice(['s', 'b1', 'b3']), sz, rng.choice([0, 1, sz]), 7, rng.choice([1, 3, 1000, 1000]), rng.choice([0, -1])]])
        for _ in range(rng.choice([20, 80])):
            op = rng.choice(['sputc', 'sputn', 'sputn', 'sync', 'overflow', 'room', 'room'])
            out.append([op, [rng.randrange(0, 3 * sz + 2)] if op == 'sputn' else [rng.randrange(1, sz + 3)] if op == 'room' else []])
        out.append(['end', []])
    return out


UNITS = [Unit('bufout', 'BufOut', 'bufout.cpp', resets=[[k, n, 1, 3, p, -(p == 2)] for p in (2, 9) for k in ('s', 'b1', 'b3') for n in (1, 2, 3)],
              t_resets=[[k, n, 1, 5, p, e] for p in (1, 2, 9) for e in (0, -1) for k in ('s', 'b1', 'b3') for n in (1, 2, 3, 4)],
              libsrc=['src/estd/ext/willemt/bipbuffer/bipbuffer.c'], rand=rand, props=['Conserved'], rand_n=6000)]
