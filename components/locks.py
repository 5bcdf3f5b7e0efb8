from vf import Unit


def rand(rng, n):
    """sampled histories which keep to what a mutex allows"""
    out = []
    while len(out) < n:
        out.append(['reset', ['m']])
        own, g, u = 'none', False, [None, None]     # u: None or [associated, owns]
        for _ in range(60):
            i = rng.randrange(2)
            c = [['hand_lock', []], ['other_lock', []]] if own == 'none' else [['hand_unlock', []]] if own == 'user' else [['other_unlock', []]] if own == 'other' else []
            if not g and own == 'none':
                c.append(['g_make', []])
            if g:
                c.append(['g_kill', []])
            if u[i] is None:
                c += [['make', [i + 1, h]] for h in ('none', 'defer', 'try', 'timed') + (('lock',) if own == 'none' else ()) + (('adopt',) if own == 'user' else ())]
            else:
                c += [['kill', [i + 1]], ['release', [i + 1]]]
                if u[i][0] and not u[i][1]:
                    c += [['try_lock', [i + 1]], ['try_lock_for', [i + 1]]] + ([['lock', [i + 1]]] if own == 'none' else [])
                if u[i][1]:
                    c.append(['unlock', [i + 1]])
            op, a = rng.choice(c)
            out.append([op, a])
            me = 'u%d' % (i + 1)
            if op in ('hand_lock', 'other_lock'):
                own = 'user' if op[0] == 'h' else 'other'
            elif op in ('hand_unlock', 'other_unlock'):
                own = 'none'
            elif op == 'g_make':
                g, own = True, 'g'
            elif op == 'g_kill':
                g, own = False, 'none'
            elif op == 'make':
                h = a[1]
                o = h in ('lock', 'adopt') or h in ('try', 'timed') and own == 'none'
                u[i] = [h != 'none', o]
                own = me if o else own
            elif op == 'kill':
                own = 'none' if u[i][1] else own
                u[i] = None
            elif op == 'release':
                own = 'user' if u[i][1] else own
                u[i] = [False, False]
            elif op == 'unlock':
                own, u[i][1] = 'none', False
            elif own == 'none':
                own, u[i][1] = me, True
        out.append(['end', []])
    return out


UNITS = [Unit('locks', 'Locks', 'locks.cpp', resets=[['m']], rand=rand, props=['OnlyOwner']),
         Unit('locks_timed', 'Locks', 'locks.cpp', resets=[['m']], rand=rand, props=['OnlyOwner'], defines=['TIMED'])]
