from vf import Unit, Raw
Z = ['l1z', 'l2z', 'l3z', 'l2u']
HOW = {'l2z': ['n', '0', 'a', 'an', 't'], 'l2s': ['n', 'an'], 'l3z': ['n', 'a', 'an'], 'l3s': ['n', 'a', 'an']}
ADOPT = [[v, 4, [98, 97], h] for v in HOW for h in HOW[v]]
S_ = ['l1s', 'l2s', 'l3s', 'dyn']


def expand(cfg):
    if len(cfg) == 4:
        return [cfg]
    v, n = cfg
    return {'l1z': [['l1z', n]], 'l2z': [['l2z', n], ['l3z', n], ['l2u', n]], 'l1s': [['l1s', n]],
            'l2s': [['l2s', n], ['l3s', n], ['dyn', n]]}[v]


class Len:
    """How long the string is by now, so that positions and lengths can be picked around its end."""

    def __init__(self, cap, n):
        self.cap, self.n = cap, n

    def op(self, op, a):
        n, g = self.n, 0
        if op in APPEND:
            g = len(a[0])
        elif op.startswith('insert'):
            g = len(a[1]) if a[0] <= n else 0
        elif op == 'append_fill':
            g = a[0]
        elif op in ('plus_ch', 'push_back'):
            g = 1
        elif op in ('append_self', 'plus_self'):
            g = n
        elif op == 'append_part':
            g = a[1] if sum(a) <= n else 0
        elif op == 'erase':
            g = -min(a[1], n - a[0]) if a[0] <= n else 0
        elif op in ('assign_c', 'assign_str', 'assign_view', 'ctor'):
            g = len(a[0]) - n
        elif op in ('clear', 'erase0'):
            g = -n
        elif op == 'pop_back':
            g = -1 if n else 0
        elif op == 'resize':
            g = min(0, a[0] - n)
        if n + g <= self.cap:
            self.n = n + g


APPEND = ('append_c', 'append_n', 'append_str', 'plus_c', 'plus_str', 'append_sv', 'append_view')


def rand(rng, n):
    out = []
    while len(out) < n:
        var = rng.choice(Z + S_)
        cap = rng.choice([5, 9, 20, 20])
        CH = [97, 98, 99, 32, 127, 200, 255, 1] + ([0] if var in S_ else [])
        big = rng.random() < .06
        if big:
            cap = 300
        ini = []
        if var in HOW and rng.random() < .4:
            ini = [rng.choice(CH[:8]) for _ in range(rng.randrange(0, cap if var[2] == 'z' else cap + 1))]
            how = rng.choice(HOW[var])
            if how == 'a' and len(ini) == cap:
                ini.pop()
            out.append(['reset', [var, cap, ini, how]])
            if how == 't':
                ini = []
        else:
            out.append(['reset', [var, cap]])
        C = lambda: rng.choice(CH)
        T = lambda m: [C() for _ in range(rng.randrange(0, max(1, m)))]
        ln = Len(cap - (var[2] in 'zu'), len(ini))
        P = lambda: rng.choice([rng.randrange(0, ln.n + 1), rng.randrange(0, ln.n + 1), 0, ln.n, rng.randrange(0, cap)])
        G = lambda: rng.choice([rng.randrange(0, 5), rng.randrange(0, ln.cap - ln.n + 2), ln.cap - ln.n + 1])
        bias = rng.random()
        if big:
            a = [[C() for _ in range(rng.randrange(255, 299) - ln.n)]] if ln.n < 255 else [[]]
            out.append(['append_sv', a])
            ln.op('append_sv', a)
        for _ in range(rng.choice([40, 100]) if not big else 25):
            if rng.random() < .1:
                bias = rng.random()
            op = rng.choice(['append_c', 'append_n', 'append_str', 'plus_c', 'plus_str', 'append_sv', 'append_view', 'append_fill',
                             'plus_ch', 'push_back', 'assign_c', 'assign_str', 'assign_view', 'ctor', 'insert_c', 'insert_n',
                             'insert_str', 'append_self', 'plus_self', 'append_part']) if rng.random() < bias * .8 else \
                rng.choice(['pop_back', 'erase', 'erase', 'erase', 'erase0', 'clear', 'resize', 'set_ix', 'copy', 'view', 'copy_ctor',
                            'front', 'back', 'assign_self'])
            if op in APPEND:
                a = [T(G())]
            elif op in ('assign_c', 'assign_str', 'assign_view', 'ctor'):
                a = [T(ln.cap + 1)]
            elif op.startswith('insert'):
                a = [P(), T(G())]
            elif op == 'append_fill':
                a = [G(), C()]
            elif op == 'erase':
                p = P() if not big else rng.choice([P(), rng.randrange(0, max(1, ln.n - 256))])
                a = [p, rng.choice([0, 1, 2, 3, 999, rng.randrange(0, max(1, ln.n - p + 2))] + ([255, 256, 257, 260] * 2 if big else []))]
            elif op in ('set_ix',):
                a = [P(), C()]
            elif op == 'copy':
                a = [rng.choice([P(), P(), 999]), P()]
            elif op == 'append_part':
                a = [P(), P()]
            elif op == 'resize':
                a = [P()]
            elif op in ('plus_ch', 'push_back', 'copy_ctor'):
                a = [C()]
            else:
                a = []
            if op in ('clear', 'erase0') and rng.random() < .7:
                continue
            out.append([op, a])
            ln.op(op, a)
        out.append(['end', []])
    return out


UNITS = [Unit('str', 'Str', ['str.cpp'] + ['str.cpp:PART=%d' % n for n in (4, 5, 9, 20, 300)],
              resets=[['l1z', 4], ['l2z', 4], ['l1s', 4], ['l2s', 4]] + ADOPT,
              consts=dict(Chars={97, 200}, Bulk=Raw('{<<>>, <<97>>, <<98, 97>>, <<97, 98, 200>>}')),
              t_resets=[['l1z', 5], ['l2z', 5], ['l1s', 5], ['l2s', 5]],
              t_consts=dict(Chars={97, 200}, Bulk=Raw('{<<>>, <<97>>, <<98, 97>>, <<97, 98, 200>>, <<98,98,98,98>>}')),
              expand=expand, rand=rand, walk=40000)]
