from itertools import product
from vf import Unit

FN = ['fn', 'fnx', 'fnv']
DEEP = {'int': 3, 'cls': 2, 'fn': 2, 'void': 2, 'double': 2}
BASES = ['bool', 'char', 'schar', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'llong', 'ullong', 'wchar', 'c16', 'c32', 'float', 'double',
         'ldouble', 'cls', 'empty', 'final', 'enum', 'ec', 'union', 'mobj', 'mfn', 'void'] + FN
CV = list(product([False, True], repeat=2))


def lay(w, cv=(False, False)):
    return [w, cv[0], cv[1]]


def over(u):
    w = u[-1][0]
    if w in ('&', '&&'):
        return []
    r = [u + [lay('*', cv)] for cv in CV]
    if w != 'void':
        r += [u + [lay('&')], u + [lay('&&')]]
        if w not in FN:
            r += [u + [lay('[2]')]] if w != '[]' else []
            r += [u + [lay('[]')]] if w not in ('[]', '[2]') else []
    return r


def universe():
    out = []
    for b in BASES:
        level = [[lay(b, cv)] for cv in (CV[:1] if b in FN else CV)]
        out += level
        for _ in range(DEEP.get(b, 1) - 1):
            level = [v for u in level for v in over(u)]
            out += level
    return out


U = universe()
OPS = ['add_const', 'add_volatile', 'add_cv', 'remove_const', 'remove_volatile', 'remove_cv', 'remove_reference', 'remove_cvref', 'add_pointer',
       'remove_pointer', 'add_lref', 'add_rref', 'remove_extent', 'decay', 'identity', 'make_signed', 'make_unsigned']


def rand(rng, n):
    out = []
    while len(out) < n:
        out.append(['reset', [rng.choice(U)]])
        for _ in range(12):
            out.append([rng.choice(OPS), []])
        out.append(['end', []])
    return out


UNITS = [Unit('typecalc', 'Types', 'typecalc.cpp', resets=[[u] for u in U], consts={}, rand=rand, invariants=['OneKind'])]
