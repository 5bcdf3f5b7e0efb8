from vf import Unit

BIG = ['cf', 'ctx', 'exp', 'expn', 'inl', 'm1', 'm2', 'mv', 'opt2']
KINDS = ['exp', 'exp', 'expn', 'inl', 'm1', 'm2', 'mv', 'tf1', 'mm1', 'mm2', 'mmv', 'cf', 'ctx', 'opt2']


def rand(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice(KINDS)
        out.append(['reset', [k, rng.choice([5, 97])]])
        for _ in range(rng.choice([15, 60])):
            i, j = rng.randrange(1, 3), rng.randrange(1, 3)
            op = rng.choice(['make', 'make', 'make', 'drop', 'call', 'call', 'calld', 'calld', 'dset', 'dassign', 'dcopy', 'dnull', 'copy', 'move', 'make_lv',
                             'assign_f', 'assign_flv', 'assign_move'])
            if op in ('move', 'make_lv', 'assign_f', 'assign_flv', 'assign_move') and k not in ('exp', 'expn'):
                continue
            if op in ('make', 'make_lv', 'assign_f', 'assign_flv'):
                a = [i, rng.randrange(1, 9)]
            elif op in ('drop', 'dnull'):
                a = [i]
            elif op in ('call', 'calld'):
                a = [i, rng.randrange(0, 8), rng.randrange(0, 8)]
            else:
                a = [i, j]
            out.append([op, a])
        out.append(['end', []])
    return out


UNITS = [Unit('func', 'Func', 'func.cpp', resets=[[k, 2] for k in sorted(set(KINDS))],
              consts=dict(Xs={1}, Ys={0}), t_resets=[[k, 4] for k in sorted(set(KINDS))], t_consts=dict(Xs={1}, Ys={0, 1}), rand=rand),
         # callables too big for any small-object shortcut
         Unit('func_big', 'Func', 'func.cpp', resets=[[k, 2] for k in BIG], consts=dict(Xs={1}, Ys={0}), rand=rand, rand_n=4000, walk=20000, defines=['PAD=300'])]
