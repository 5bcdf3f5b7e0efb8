"""The units of other components compiled as other users do: as C++11, 14 or 20, and with
char unsigned and enumerations as small as they can be (the defaults of ARM)."""
from nostd import clone

ARM = ['-funsigned-char', '-fshort-enums']
C11 = [('bip', 'bip'), ('bits', 'bits'), ('bufout', 'bufout'), ('bufin', 'bufin'), ('deque', 'deque'), ('fixmap', 'fixmap'), ('hashmap', 'hashmap'), ('handle', 'handle'), ('istream', 'istream'),
       ('list', 'list'), ('pool', 'pool'), ('quantity', 'quantity'), ('sbuf', 'sbuf'), ('shared', 'shared'), ('streamiter', 'streamiter'),
       ('string_search', 'strsearch'), ('numget', 'strto'), ('views', 'views'), ('typelist', 'typelist'), ('ctype', 'ctype'), ('pqueue', 'pqueue'), ('vector', 'vector'), ('filestream', 'posix_in')]
C14 = [('algo', 'algo'), ('variant', 'variant'), ('numget', 'numget'), ('tuple', 'tuple'), ('optional', 'optional'), ('expected', 'expected'), ('meta', 'meta')]
C20 = [('func', 'func'), ('call', 'call'), ('string_mut', 'str'), ('timed', 'durations'), ('ostream', 'ostream'), ('timed', 'calendar'), ('typecalc', 'typecalc'), ('optional', 'optional'), ('algo', 'algo')]
UNITS = [clone(m, n, p + n, std, [] if n == 'typecalc' else ARM) for p, std, l in (('c11_', 'gnu++11', C11), ('c14_', 'gnu++14', C14), ('c20_', 'gnu++20', C20)) for m, n in l]

DEEP = 'c14_tuple c14_numget c20_durations c11_typelist c20_call c20_calendar c20_typecalc c11_handle c20_str'.split()
for u in UNITS:
    u.deep = u.name in DEEP           # these only in the thorough tier
