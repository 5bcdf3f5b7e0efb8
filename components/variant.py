from vf import Unit


def rand(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice(['mix', 'mix', 'mix', 'triv', 'one', 'dup', 'dup'])
        na = {'mix': 4, 'triv': 3, 'one': 1, 'dup': 4}[k]
        out.append(['reset', [k]])
        for _ in range(rng.choice([20, 60])):
            r, s = rng.randrange(1, 3), rng.randrange(1, 3)
            op = rng.choice(['make_idx', 'make_type', 'make_conv', 'make_conv_m', 'assign_val', 'assign_val_m', 'emplace_i', 'emplace_t',
                             'make_copy', 'assign_copy', 'make_move', 'assign_move', 'assign_copy_throw', 'make_copy_throw',
                             'emplace_throw', 'emplace_i_throw', 'assign_val_throw', 'visit', 'mut'])
            if op in ('make_copy', 'make_move', 'assign_move', 'assign_copy_throw', 'make_copy_throw'):
                s = 3 - r
            if op in ('visit', 'assign_val_throw', 'emplace_throw', 'emplace_i_throw'):
                a = [r]
            elif op == 'mut':
                a = [r, rng.randrange(0, 100)]
            elif op in ('make_copy', 'assign_copy', 'make_move', 'assign_move', 'assign_copy_throw', 'make_copy_throw'):
                a = [r, s]
            else:
                a = [r, rng.randrange(na), rng.randrange(0, 100)]
            if k == 'dup' and (op in ('make_type', 'emplace_t') or 'conv' in op or 'assign_val' in op):
                continue
            if op.endswith('throw') and k != 'mix':
                continue
            if op in ('make_conv', 'make_conv_m', 'assign_val', 'assign_val_m') and k == 'triv':
                a[1] = 0
            if op in ('assign_copy_throw', 'make_copy_throw'):
                out.append(['emplace_i', [s, 2, rng.randrange(100)]])
            out.append([op, a])
        out.append(['end', []])
    return out


UNITS = [Unit('variant', 'Variant', 'variant.cpp', resets=[['mix'], ['triv'], ['one'], ['dup']],
              consts=dict(Vals={0, 1}), t_consts=dict(Vals={0, 1, 2}), rand=rand, props=['ValuelessOnlyByThrow'])]
