from vf import Unit, Raw
import itertools


def rand(rng, n):
    out = []
    while len(out) < n:
        kind = rng.choice(['less', 'greater', 'state', 'heap'])
        if kind == 'heap':
            out.append(['reset', ['heap', 3]])
            for _ in range(60):
                m = rng.choice([3, 10, 100])
                s = [rng.randrange(m) for _ in range(rng.randrange(0, rng.choice([6, 14, 14, 45])))]
                op = rng.choice(['heapsort', 'make', 'pushsort', 'pushsort_k', 'tagsort'])
                out.append([op, [s] if op == 'pushsort' else [s, rng.choice([2, 3, 4, 5, 0] if op == 'tagsort' else [2, 3, 4, 5])]])
            continue
        out.append(['reset', [kind, rng.choice([4, 12, 12, 40])]])
        m = rng.choice([4, 12, 40])
        bias = rng.random()
        for _ in range(rng.choice([40, 120])):
            if rng.random() < .1:
                bias = rng.random()
            op = rng.choice(['push', 'push_m', 'emplace', 'emplace_notify']) if rng.random() < bias else rng.choice(['pop', 'erase_if', 'erase_top', 'copy', 'move'])
            out.append([op, [rng.randrange(m)] if op in ('push', 'push_m', 'emplace', 'emplace_notify', 'erase_if') else []])
        out.append(['end', []])
    return out


def seqs(m, n):
    return [list(s) for k in range(n + 1) for s in itertools.product(range(m), repeat=k)]


UNITS = [Unit('pqueue', 'PriorityQueue', 'pqueue.cpp',
              resets=[['less', 6], ['greater', 4], ['state', 4], ['heap', 3]],
              consts=dict(Vals={2, 5, 8}, Seqs=Raw('UNION {[1..n -> 1..n] : n \\in 0..4}')),
              t_resets=[['less', 6], ['greater', 6], ['state', 6], ['heap', 3]],
              t_consts=dict(Vals={2, 5, 8, 9}, Seqs=Raw('UNION {[1..n -> 1..3] : n \\in 0..7}')),
              rand=rand, walk=20000, props=['PopTop'])]
