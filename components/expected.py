from vf import Unit

KINDS = ['tt', 'tt', 'ie', 'ti', 'ii', 've', 'mo']


def rand(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice(KINDS)
        out.append(['reset', [k]])
        for _ in range(rng.choice([20, 60])):
            r = rng.randrange(1, 3)
            op = rng.choice(["make_val", "make_val_m", "make_inplace", "set_val", "set_val_m", "emplace", "make_err", "make_unex", "make_unex2",
                             "set_err", "set_err2", "set_err", "value_or", "mut", "make_copy", "make_move", "make_default", "value"])
            a = [r, 3 - r] if op in ('make_copy', 'make_move') else [r] if op in ('make_default', 'value') else [r, rng.randrange(0, 200)]
            if k == 'mo' and op in ('make_val', 'set_val', 'make_copy', 'value_or'):
                continue
            out.append([op, a])
        out.append(['end', []])
    return out


UNITS = [Unit('expected', 'Expected', 'expected.cpp', resets=[['tt'], ['ie'], ['ti'], ['ii'], ['ve'], ['mo']],
              consts=dict(Vals={0, 1, 2}), t_consts=dict(Vals={0, 1, 2, 3}), rand=rand)]
