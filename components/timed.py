from vf import Unit

KINDS = ['sms', 'ms8', 'ds', 'odd', 'nsh', 'nsm', 'usm', 'tick', 'dw', 'ym', 'hm', 'same', 'pct', 'byt', 'pj', 'pk']
REP = {'sms': (-64, -64), 'ms8': (-16, -8), 'ds': (16, 8), 'odd': (-32, -32), 'nsh': (-64, -32), 'nsm': (-64, -32), 'usm': (32, -32), 'tick': (-64, -64), 'dw': (-32, -32), 'ym': (-16, -32),
       'hm': (-32, -32), 'same': (-16, -8), 'pct': (-16, 32), 'byt': (32, 16), 'pj': (-16, -32), 'pk': (8, -16)}
VIAS = ['ctor', 'cast', 'asg', 'std', 'stdcast']


def wide(v):
    out = [1 if v < 0 else 0]
    v = abs(v)
    while v:
        out.append(v % 1000)
        v //= 1000
    return out


def rand(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice(KINDS)
        out.append(['reset', [k]])
        lim = []
        for b in REP[k]:
            lim.append((-(1 << (-b - 1)), (1 << (-b - 1)) - 1) if b < 0 else (0, (1 << b) - 1))

        def val(i):
            lo, hi = lim[i]
            t = rng.random()
            if t < .1:
                v = rng.choice([lo, hi, lo + 1, hi - 1])
            elif t < .55:
                v = rng.randrange(0, 1 << rng.randrange(1, 63)) * rng.choice([1, -1])
            elif t < .7:
                # round numbers of days, hours, minutes, seconds in some unit
                v = rng.choice([1, 60, 3600, 86400]) * rng.choice([1, 7, 10, 12, 15, 100, 1000, 10**6, 10**9]) * rng.randrange(1, 300) + rng.choice([-1, 0, 0, 1])
            else:
                v = rng.randrange(-300, 300)
            if not lo <= v <= hi:
                v = rng.randrange(max(lo, -1000), min(hi, 1000) + 1)
            return wide(v)

        chrono = k not in ('pct', 'byt', 'pj', 'pk')
        for _ in range(40):
            op = rng.choice(['s1', 's1', 's2', 's2', 'c12', 'c21', 'sum', 'diff', 'cmp', 'cmp', 'addm', 'add', 'mul', 'times', 'neg', 'abs', 'inc', 'lim', 'hms', 'hms'])
            if chrono and op == 'inc' or not chrono and op in ('mul', 'times', 'abs', 'lim', 'hms'):
                continue
            if k in ('pj', 'pk') and op not in ('s1', 's2', 'c12', 'c21', 'inc'):
                continue
            v = rng.choice(VIAS if chrono else ['ctor', 'asg'])
            d = rng.choice('dt' if chrono else 'd')
            a = {'s1': lambda: [val(0)], 's2': lambda: [val(1)], 'c12': lambda: [v], 'c21': lambda: [v], 'diff': lambda: [d], 'cmp': lambda: [d], 'addm': lambda: [rng.choice([1, -1])],
                 'add': lambda: [rng.choice(['d', 't', 'tp']) if chrono else 'd', rng.choice([1, -1]), val(0)], 'mul': lambda: [rng.randrange(-5, 20)], 'times': lambda: [rng.randrange(0, 10)]}.get(op, lambda: [])()
            out.append([op, a])
        out.append(['end', []])
    return out


UNITS = [Unit('durations', 'Time', 'timed.cpp', resets=[[k] for k in KINDS], consts={'Vals': {0, 1, 7, 119}, 'Ks': {2, -1}}, t_consts={'Vals': {0, 1, 7, 50, 119, 250}, 'Ks': {2, -1}}, rand=rand, rand_n=8000, invariants=('TypeOK', 'RoundTrip'))]


def rand_cal(rng, n):
    out = []
    while len(out) < n:
        out.append(['reset', ['cal']])
        for _ in range(50):
            op = rng.choice(['set', 'set', 'leap', 'ok', 'last', 'last', 'addy', 'suby', 'addm', 'addd', 'plus'])
            a = {'set': lambda: [rng.choice([rng.randrange(-32768, 32768), rng.randrange(1890, 2110), 100 * rng.randrange(-300, 300), -32768, 32767, -32767]), rng.randrange(0, rng.choice([13, 14, 256])), rng.randrange(0, rng.choice([33, 256]))],
                 'leap': lambda: [], 'ok': lambda: [], 'last': lambda: []}.get(op, lambda: [rng.choice([1, 4, 100, rng.randrange(0, 300), rng.randrange(0, 30000)])])()
            out.append([op, a])
        out.append(['end', []])
    return out


UNITS += [Unit('calendar', 'Calendar', 'calendar.cpp', resets=[['cal']], consts={'Years': {-32768, -32767, -4, 0, 1900, 1996, 2000, 2023, 2024, 2100, 32767}, 'Small': {1, 4, 96}},
               t_consts={'Years': set(range(1890, 2110)) | {-32768, -32767, -400, -100, -4, -1, 0, 32767}, 'Small': {1, 4, 96}}, rand=rand_cal, rand_n=6000)]
