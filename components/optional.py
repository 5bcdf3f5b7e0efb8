from vf import Unit


def rand(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice([['tr', 0], ['tr', 0], ['mo', 0], ['int', 0], ['nul', -1], ['nul', 0], ['bit', 0]])
        out.append(['reset', k])
        X = lambda: rng.randrange(2) if k[0] == 'bit' else rng.randrange(-2, 4)
        for _ in range(rng.choice([20, 60])):
            r = rng.randrange(1, 3)
            op = rng.choice(['make_val', 'make_val_m', 'make_inplace', 'assign_val', 'assign_val_m', 'emplace', 'value_or', 'eqv', 'rel', 'mut',
                             'make_null', 'make_default', 'assign_null', 'do_reset', 'emplace_throw', 'assign_throw', 'assign_opt_throw', 'value',
                             'make_copy', 'assign_copy', 'make_move', 'assign_move', 'eq', 'make_conv', 'make_conv_m', 'assign_conv', 'assign_conv_m'])
            if op.endswith('throw') and k[0] != 'tr':
                continue
            if op == 'make_val_m' and k[0] != 'mo' or k[0] == 'mo' and op in ('make_val', 'assign_val', 'make_copy', 'assign_copy', 'value_or'):
                continue
            if op in ('make_copy', 'make_move', 'assign_move'):
                a = [r, 3 - r]
            elif op in ('assign_copy', 'eq'):
                a = [r, rng.randrange(1, 3)]
            elif 'conv' in op:
                a = [r, rng.choice([[], [X()], [X()]])]
            elif op in ('make_null', 'make_default', 'assign_null', 'do_reset', 'emplace_throw', 'assign_throw', 'assign_opt_throw', 'value'):
                a = [r]
            else:
                a = [r, X()]
            out.append([op, a])
        out.append(['end', []])
    return out


UNITS = [Unit('optional', 'Optional', 'optional.cpp',
              resets=[['tr', 0], ['mo', 0], ['int', 0], ['nul', -1], ['nul', 0], ['bit', 0]],
              consts=dict(Vals={-1, 0, 1}), t_consts=dict(Vals={-1, 0, 1, 2}), rand=rand, props=['ResetEmpties'])]
