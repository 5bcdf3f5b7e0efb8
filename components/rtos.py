from vf import Unit

FLAGS = ['-I' + __import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))), 'drivers', 'rtos')]
DEF = ['ESTD_OS_FREERTOS=1']
LOCKS = [[k, a, 0] for k in ('mutex', 'bmutex', 'tmutex', 'btmutex', 'rec', 'bin') for a in ('dyn', 'static')] + [['sem', a, n] for a in ('dyn', 'static') for n in range(3)]
QUEUES = [[k, n] for k in ('dyn', 'static', 'layer1', 'raw', 'rawstatic') for n in (1, 2, 3)]
MISC = [['group', 'dyn'], ['group', 'static'], ['timer', 'dyn'], ['timer', 'static'], ['task', 'dyn'], ['task', 'static'], ['task', 'given']]


def time(rng, neg=False):
    u = rng.choice(['tick', 'ms', 's'])
    return [u, rng.randrange(-3 if neg else 0, 4) if u == 's' else rng.randrange(-60 if neg else 0, 200)]


def locks(rng, n):
    out = []
    while len(out) < n:
        c = rng.choice(LOCKS)
        k = c[0]
        out.append(['reset', c])
        mutex = k in ('mutex', 'tmutex', 'rec')
        cnt, own, depth = (c[2] if k == 'sem' else 1 if mutex else 0), 0, 0
        top = 2 if k == 'sem' else 1
        for _ in range(40):
            ops = ['count'] + (['holder'] if mutex else [])
            if cnt:
                ops += ['take', 'take', 'other_take']
            elif own == 1 and k != 'rec':
                ops += ['busy']
            else:
                ops += ['take', 'take']
            if own != 2:
                ops += ['give', 'give']
            if own == 2 or (not mutex and cnt < top):
                ops += ['other_give']
            if not mutex:
                ops += ['take_isr', 'give_isr']
            if k in ('sem', 'bin'):
                ops += ['max']
            o = rng.choice(ops)
            if o == 'busy':     # held by ourselves: refused, after the time given
                timed = k == 'tmutex'
                f = rng.choice(['try'] + (['for', 'until'] if timed else []))
                out.append(['take', [f] + time(rng, True) + [-1]])
            elif o == 'take':
                timed = k in ('tmutex', 'btmutex', 'sem', 'bin')
                can = not mutex or own == 2
                f = rng.choice(['try'] + (['for', 'until'] * 2 if timed else []) + (['wait'] if cnt or own == 1 or can else []))
                u, t = time(rng, True)
                d = rng.choice([-1, rng.randrange(260)]) if can else -1
                if f == 'wait' and not cnt and own != 1:
                    d = rng.randrange(260)
                out.append(['take', [f, u, t, d]])
                w = 10 ** 9 if f == 'wait' else 0 if f == 'try' or t <= 0 else {'tick': t, 'ms': t // 10, 's': t * 100}[u]
                if k == 'rec' and own == 1:
                    depth += 1
                elif cnt:
                    cnt, own, depth = cnt - 1, 1 if mutex else 0, 1
                elif 0 <= d <= w and w > 0:
                    own, depth = 1 if mutex else 0, 1
            else:
                out.append([o, [rng.random() < 0.5] if o[-3:] == 'isr' else []])
                if o == 'give':
                    if k == 'rec':
                        if own == 1:
                            depth -= 1
                            if not depth:
                                own, cnt = 0, 1
                    elif mutex:
                        own, cnt = 0, 1
                    else:
                        cnt = min(top, cnt + 1)
                elif o == 'give_isr':
                    cnt = min(top, cnt + 1)
                elif o == 'take_isr':
                    cnt = max(0, cnt - 1)
                elif o == 'other_take':
                    cnt, own = cnt - 1, 2 if mutex else 0
                elif o == 'other_give':
                    cnt, own = cnt + 1, 0
        out.append(['end', []])
    return out


def queues(rng, n):
    out = []
    while len(out) < n:
        c = [rng.choice(['dyn', 'static', 'layer1', 'raw', 'rawstatic']), rng.choice([1, 2, 3])]
        raw = c[0][:3] == 'raw'
        out.append(['reset', c])
        for _ in range(40):
            o = rng.choice(['send', 'send', 'recv', 'recv', 'send_isr', 'waiting'] + (['peek', 'peek_isr', 'clear', 'spaces'] if raw else []) + (['over', 'over_isr'] if raw and c[1] == 1 else []) + (['buffers'] if c[0] in ('static', 'layer1') else []))
            v, d = rng.randrange(100), rng.choice([-1, rng.randrange(230)])
            if o == 'send':
                f = rng.choice(['wait', 'for'] + (['back'] if raw else []))
                out.append([o, [f, v] + time(rng) + [rng.randrange(230) if f == 'wait' else d]])
            elif o in ('recv', 'peek'):
                f = rng.choice(['wait', 'for'])
                out.append([o, [f] + time(rng) + [rng.randrange(230) if f == 'wait' else d, v]])
            elif o in ('send_isr', 'over_isr'):
                out.append([o, [v, rng.random() < 0.5]])
            elif o == 'over':
                out.append([o, [v]])
            else:
                out.append([o, []])
        out.append(['end', []])
    return out


def misc(rng, n):
    out = []
    tf = lambda: rng.random() < 0.5
    while len(out) < n:
        c = rng.choice(MISC)
        out.append(['reset', c])
        active, period, due, value = False, 5, 0, 0
        for _ in range(40):
            t = rng.choice([time(rng), ['max', 1]])
            d = rng.choice([-1, rng.randrange(230)])
            if c[0] == 'group':
                o = rng.choice(['set', 'clear', 'set_isr', 'clear_isr', 'await', 'await', 'sync'])
                if o in ('await', 'sync'):
                    if t[0] == 'max' :
                        d, ob = rng.randrange(230), 7
                    else:
                        ob = rng.randrange(8)
                    out.append([o, ([rng.randrange(1, 8), tf(), tf()] if o == 'await' else [rng.randrange(8), rng.randrange(1, 8)]) + t + [d, ob]])
                else:
                    out.append([o, [rng.randrange(8), tf()]])
            elif c[0] == 'timer':
                o = rng.choice(['start', 'stop', 'restart', 'start_isr', 'stop_isr', 'restart_isr', 'period', 'id', 'pend', 'sleep_for', 'sleep_until', 'expiry'])
                if o in ('start', 'stop', 'restart'):
                    out.append([o, t])
                    active, due = (False, due) if o == 'stop' else (True, period)
                elif o[-3:] == 'isr':
                    out.append([o, [tf()]])
                    active, due = (False, due) if o == 'stop_isr' else (True, period)
                elif o == 'period':
                    p = ['ms', rng.randrange(10, 300)]
                    out.append([o, p + t])
                    active, period, due = True, p[1] // 10, p[1] // 10
                elif o == 'id':
                    out.append([o, [rng.randrange(3)]])
                elif o == 'pend':
                    out.append([o, [rng.randrange(1000)] + t])
                elif o == 'expiry':
                    if active:
                        out.append([o, []])
                else:
                    n_ = rng.randrange(-30, 10 * due if active else 500)
                    out.append([o, ['ms', n_]])
                    if active:
                        due -= max(0, n_ // 10)
            else:
                o = rng.choice(['suspend', 'resume', 'note', 'note', 'give', 'value_clear', 'state_clear'])
                if o == 'note':
                    out.append([o, [rng.choice(['none', 'bits', 'write', 'unless']), rng.randrange(8), tf(), tf()]])
                elif o == 'give':
                    out.append(['value_clear', [7]])
                    out.append([o, [rng.choice(['', 'index', 'isr']), tf()]])
                else:
                    out.append([o, [] if o in ('suspend', 'resume') else [rng.randrange(8) if o == 'value_clear' else 0]])
        out.append(['end', []])
    return out


UNITS = [Unit('rtos_lock', 'RtosLock', 'rtos_lock.cpp', resets=LOCKS, rand=locks, flags=FLAGS, defines=DEF, invariants=('TypeOK', 'OneHolder'), props=['InTime', 'Exclusive']),
         Unit('rtos_queue', 'RtosQueue', 'rtos_queue.cpp', resets=QUEUES, rand=queues, flags=FLAGS, defines=DEF, props=['InOrder']),
         Unit('rtos_misc', 'RtosMisc', 'rtos_misc.cpp', resets=MISC, rand=misc, flags=FLAGS, defines=DEF, props=['ClearsOnly'])]
