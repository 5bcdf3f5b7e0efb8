"""The units of other components, compiled as on a platform whose std headers are absent:
drivers/nostd.h turns the FEATURE_STD_* switches off, so the library's own fallbacks
(algorithms, type traits, heap, ratio, duration, invoke...) are what runs."""
import copy, importlib

PICK = [('algo', 'algo'), ('pqueue', 'pqueue'), ('vector', 'vector'), ('deque', 'deque'), ('tuple', 'tuple'),
        ('typecalc', 'typecalc'), ('meta', 'common'), ('meta', 'meta'), ('func', 'func'), ('locks', 'locks'), ('optional', 'optional'), ('variant', 'variant'),
        ('shared', 'shared'), ('views', 'views'), ('sbuf', 'sbuf'), ('timed', 'calendar'), ('timed', 'durations'), ('quantity', 'quantity')]


def clone(mod, name, as_, std, flags):
    us = importlib.import_module(mod).UNITS
    u = copy.copy(next(u for u in us if u.name == name))
    u.name, u.std, u.flags = as_, std, u.flags + flags
    u.rand_n, u.walk = min(u.rand_n, 2500), min(u.walk, 12000)
    u.deep = as_ in ('ns_durations', 'ns_calendar', 'ns_tuple')   # these only in the thorough tier
    return u


UNITS = [clone(m, n, 'ns_' + n, 'gnu++17', ['-include', 'nostd.h']) for m, n in PICK]
