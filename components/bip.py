from vf import Unit


def rand(rng, n):
    out = []
    while len(out) < n:
        sz = rng.choice([1, 2, 3, 5, 6, 16, 50, 300, 1000])
        out.append(['reset', [rng.choice(['c', 'l1', 'l3']), sz, 251]])
        big = rng.choice([2, sz // 4 + 1, sz // 4 + 1, sz // 2 + 1, sz + 1])
        for _ in range(rng.choice([20, 80])):
            op = rng.choice(['offer', 'offer', 'direct', 'poll', 'poll', 'peek', 'drain'])
            out.append([op, [] if op == 'drain' else [rng.randrange(0, big + 1)]])
        out.append(['end', []])
    return out


UNITS = [Unit('bip', 'BipBuf', 'bip.cpp', resets=[[k, n, 5] for k in ('c', 'l1', 'l3') for n in (1, 2, 3, 4)],
              t_resets=[[k, n, 7] for k in ('c', 'l1', 'l3') for n in (1, 2, 3, 4, 5, 6)],
              libsrc=['src/estd/ext/willemt/bipbuffer/bipbuffer.c'], rand=rand, props=['Fifo'], rand_n=6000)]
