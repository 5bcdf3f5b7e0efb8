"""Framework: TLC model checking + two-way conformance between the TLA+
specifications in /verif/specs and the real estdlib code built from /repo.

For every unit (specification + driver + configuration):
  1. TLC explores the specification exhaustively (invariants, action
     properties) and prints every transition of the state graph;
  2. spec -> code: walks covering every transition, and seeded random walks,
     are replayed by a driver compiled against /repo; every result and every
     observation is compared;
  3. code -> spec: seeded random scripts over larger parameters are executed by
     the driver; the recorded traces are checked by TLC against the spec.
"""
import json, os, random, re, shutil, subprocess, sys, time, hashlib
from collections import defaultdict, deque
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(VERIF, 'out')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
LIBSRC = ['src/estd/ext/willemt/bipbuffer/bipbuffer.c',
          'src/estd/internal/string_convert.cpp',
          'src/estd/internal/utility.cpp',
          'src/estd/port/posix/streambuf.cpp']


class Broken(Exception):
    """machinery failure: neither a pass nor a violation"""


class Violation(Exception):
    def __init__(self, info):
        self.info = info


def tla(v):
    """python value -> TLA+ literal"""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla(x) for x in sorted(v, key=repr)) + '}'
    if isinstance(v, Raw):
        return v.s
    raise TypeError(v)


class Raw:
    def __init__(self, s):
        self.s = s


def jd(v):
    return json.dumps(v, separators=(',', ':'))


class Unit:
    """One specification bound to one driver."""

    def __init__(self, name, spec, driver, resets, consts=None, t_consts=None, t_resets=None,
                 rand=None, walk=60000, rand_n=12000, defines=(), libsrc=(), invariants=('TypeOK',),
                 expand=None, flags=(), props=(), timeout=240, std='gnu++17', t_rand=8, max_walk=400,
                 graph=True, tv_extra=None, opt='-O0'):
        self.name, self.spec = name, spec
        self.driver = [driver] if isinstance(driver, str) else list(driver)
        self.resets, self.t_resets = resets, t_resets or resets
        self.consts = consts or {}
        self.t_consts = dict(self.consts, **(t_consts or {}))
        self.rand, self.walk, self.rand_n = rand, walk, rand_n
        self.defines, self.libsrc, self.flags = defines, libsrc, list(flags)
        self.invariants, self.props = invariants, props
        self.expand = expand
        self.timeout, self.std = timeout, std
        self.t_rand = t_rand          # thorough multiplier for random volume
        self.max_walk = max_walk
        self.graph = graph
        self.opt = opt


class Run:
    def __init__(self, prop, unit, tier, seed, outdir, known=None):
        self.u, self.prop, self.tier, self.seed = unit, prop, tier, seed
        self.dir = os.path.join(outdir, unit.name)
        os.makedirs(self.dir, exist_ok=True)
        self.stats = defaultdict(int)
        self.samples = []
        self.opcount = defaultdict(int)
        self.known = known or []
        self.log = []

    def thorough(self):
        return self.tier == 'thorough'

    # ---------------------------------------------------------------- build
    def build(self):
        u = self.u
        t0 = time.time()
        common = ['-I%s/src' % REPO, '-I%s/drivers' % VERIF,
                  '-DFEATURE_ESTD_COMPILE_STRICTNESS=4', '-DFEATURE_ESTD_COMPILE_VERBOSITY=0',
                  '-w', u.opt, '-g1', '-fno-omit-frame-pointer', '-fsanitize=address'] + \
                 ['-D' + d for d in u.defines] + u.flags
        jobs = []
        for i, d in enumerate(u.driver):
            # "file.cpp:PART=2" compiles file.cpp with -DPART=2
            src, _, part = d.partition(':')
            jobs.append(['g++', '-std=' + u.std] + common + (['-DDRIVER_MAIN'] if i == 0 else []) +
                        (['-D' + part] if part else []) +
                        ['-c', os.path.join(VERIF, 'drivers', src), '-o', os.path.join(self.dir, '%s.%d.o' % (src, i))])
        for s in u.libsrc:
            cc = 'gcc' if s.endswith('.c') else 'g++'
            jobs.append([cc] + (['-std=' + u.std] if cc == 'g++' else []) + common +
                        ['-c', os.path.join(REPO, s), '-o', os.path.join(self.dir, os.path.basename(s) + '.o')])

        def one(j):
            return subprocess.run(j, capture_output=True, text=True, timeout=600)
        with ThreadPoolExecutor(8) as ex:
            for j, r in zip(jobs, ex.map(one, jobs)):
                if r.returncode != 0:
                    self.no_build('driver does not compile', ' '.join(j), r.stderr)
        exe = os.path.join(self.dir, 'driver')
        r = subprocess.run(['g++', '-fsanitize=address'] + [j[-1] for j in jobs] + ['-o', exe, '-lpthread'],
                           capture_output=True, text=True)
        if r.returncode != 0:
            self.no_build('driver does not link', exe, r.stderr)
        for j in jobs:
            os.unlink(j[-1])
        self.exe = exe
        self.stats['build_ms'] = int((time.time() - t0) * 1000)

    def no_build(self, what, cmd, err):
        """the driver is ordinary use of the code: when the compiler works (it builds an empty driver) and
        what it objects to is an error in using the code, the operations are no longer there"""
        src = os.path.join(self.dir, 'empty.cpp')
        with open(src, 'w') as f:
            f.write('#include <vector>\n#include <string>\n#include <memory>\nint main() { std::vector<std::string> v(3); return v.size() != 3; }\n')
        exe = os.path.join(self.dir, 'empty')
        p = subprocess.run(['g++', '-std=' + self.u.std, '-fsanitize=address', src, '-o', exe], capture_output=True, text=True)
        ok = p.returncode == 0 and subprocess.run([exe], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0')).returncode == 0
        lines = [l for l in err.split('\n') if re.search(r'(error|undefined reference|multiple definition)', l)]
        if not ok or not lines or re.search(r'No space left|Killed|internal compiler error|out of memory', err):
            raise Broken('%s: %s\n%s' % (what, cmd, err[-6000:]))
        raise Violation(dict(kind='api', unit=self.u.name, spec=self.u.spec, script=[], op='build', expected='the operations of the specification exist',
                             got=what, detail='; '.join(l[-300:] for l in lines[:3])))

    # ---------------------------------------------------------------- driver
    def drive(self, lines, tag, lineflush=False, timeout=None):
        """run script lines; returns (events, crash) ; crash = None or text"""
        sp = os.path.join(self.dir, tag + '.script')
        ep = os.path.join(self.dir, tag + '.events')
        rp = os.path.join(self.dir, tag + '.err')
        with open(sp, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:color=never:max_malloc_fill_size=65536:malloc_fill_byte=%d' % (0x5a if tag.startswith('rand') else 0xa5))
        crash = None
        with open(sp) as i, open(ep, 'w') as o, open(rp, 'w') as e:
            try:
                p = subprocess.run([self.exe] + (['-l'] if lineflush else []), stdin=i, stdout=o, stderr=e,
                                   env=env, timeout=timeout or self.u.timeout)
                if p.returncode == 70:
                    raise Broken('driver/script error: ' + open(rp).read()[-2000:])
                if p.returncode != 0:
                    crash = 'exit %d\n%s' % (p.returncode, open(rp, errors='replace').read()[:6000])
            except subprocess.TimeoutExpired:
                crash = 'hang: driver did not finish'
        with open(ep, errors='replace') as f:
            ev = f.read().split('\n')
        if ev and ev[-1] == '':
            ev.pop()
        elif ev:
            ev.pop()     # partial line
        return ev, crash

    # ---------------------------------------------------------------- TLC
    def tlc(self, name, module, cfg, workers='4', mem='5g', timeout=1800):
        d = os.path.join(self.dir, name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, name + '.tla'), 'w') as f:
            f.write(module)
        with open(os.path.join(d, name + '.cfg'), 'w') as f:
            f.write(cfg)
        cmd = ['java', '-Xmx' + mem, '-Xss16m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4',
               '-DTLA-Library=' + os.path.join(VERIF, 'specs'), '-cp', JAR, 'tlc2.TLC',
               '-workers', workers, '-noGenerateSpecTE', '-metadir', os.path.join(d, 'states'),
               '-config', name + '.cfg', name + '.tla']
        out = os.path.join(d, 'out.txt')
        with open(out, 'w') as o:
            try:
                p = subprocess.run(cmd, cwd=d, stdout=o, stderr=subprocess.STDOUT, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise Broken('TLC timeout for ' + name)
        shutil.rmtree(os.path.join(d, 'states'), ignore_errors=True)
        return rc, out

    def const_lines(self, consts):
        defs, cfg = [], []
        for k, v in consts.items():
            defs.append('mc_%s == %s' % (k, tla(v)))
            cfg.append('CONSTANT %s <- mc_%s' % (k, k))
        return '\n'.join(defs), '\n'.join(cfg)

    def graph(self):
        """exhaustive exploration; fills self.edges / self.inits"""
        u = self.u
        t0 = time.time()
        consts = u.t_consts if self.thorough() else u.consts
        resets = u.t_resets if self.thorough() else u.resets
        d, c = self.const_lines(consts)
        mod = '''---- MODULE MC ----
EXTENDS %s, Json
%s
MCResets == { %s }
MCInit == \\E c \\in MCResets : InitCfg(c)
MCInitEmit == TLCGet("level") = 1 => PrintT(ToJson(<<"I", cfg, Key, Obs>>))
MCEmit == PrintT(ToJson(<<"E", Key, act', Key', Obs'>>))
====
''' % (u.spec, d, ',\n '.join(tla(r) for r in resets))
        cfg = '%s\nINIT MCInit\nNEXT Next\nVIEW Key\nCHECK_DEADLOCK FALSE\nCONSTRAINT MCInitEmit\nACTION_CONSTRAINT MCEmit\n' % c
        for i in u.invariants:
            cfg += 'INVARIANT %s\n' % i
        for p in u.props:
            cfg += 'PROPERTY %s\n' % p
        rc, out = self.tlc('MC', mod, cfg, timeout=3000)
        self.edges = defaultdict(dict)      # key -> {opargs: (r, key2, obs)}
        self.inits = {}
        n = 0
        intern = {}
        ok = False
        tail = []
        with open(out, errors='replace') as f:
            for line in f:
                if line.startswith('"[\\"'):
                    rec = json.loads(json.loads(line))
                    if rec[0] == 'E':
                        _, k, act, k2, obs = rec
                        ks = jd(k)
                        ks = intern.setdefault(ks, ks)
                        k2s = jd(k2)
                        k2s = intern.setdefault(k2s, k2s)
                        oa = jd([act['op'], act['a']])
                        oa = intern.setdefault(oa, oa)
                        val = (act['r'], k2s, obs)
                        old = self.edges[ks].get(oa)
                        if old is not None and old != val:
                            raise Broken('spec %s not deterministic: %s %s: %s / %s' % (u.spec, ks, oa, old, val))
                        if old is None:
                            n += 1
                        self.edges[ks][oa] = val
                    else:
                        self.inits[jd(rec[1])] = (jd(rec[2]), rec[3])
                else:
                    tail.append(line)
                    m = re.match(r'(\d+) states generated, (\d+) distinct states found', line)
                    if m:
                        self.stats['states'] = int(m.group(2))
                    if 'Model checking completed. No error' in line:
                        ok = True
        if not ok:
            raise Broken('TLC reports an error in specification %s (machinery):\n%s' % (u.spec, ''.join(tail)[-5000:]))
        self.stats['transitions'] = n
        self.stats['graph_ms'] = int((time.time() - t0) * 1000)
        os.unlink(out)

    def walks(self, rng):
        """list of (line, r, obs) covering every edge, then random walks"""
        edges = self.edges
        # one edge per successor is enough for the searches
        adj = {k: [(oa, y) for y, oa in {y: oa for oa, (r, y, o) in v.items() if y != k}.items()] for k, v in edges.items()}
        spent = set()       # states from which everything is covered
        covered = set()
        script = []
        total = sum(len(v) for v in edges.values())
        limit = total * 12 + 20000
        uncovered = {k: set(v) for k, v in edges.items()}

        def emit(k, oa):
            r, k2, obs = edges[k][oa]
            script.append((oa, r, obs))
            uncovered[k].discard(oa)
            return k2

        for ckey, (k0, obs0) in self.inits.items():
            done = False
            while not done:
                script.append(('["reset",%s]' % ckey, 0, obs0))
                k = k0
                steps = 0
                while steps < self.u.max_walk:
                    un = uncovered.get(k)
                    if un:
                        oa = next(iter(un)) if len(un) < 2 or rng.random() < .5 else rng.choice(sorted(un)) if len(un) < 40 else next(iter(un))
                        k = emit(k, oa)
                        steps += 1
                        continue
                    # bfs to the nearest state with an uncovered edge
                    prev = {k: None}
                    dq = deque([k] if k not in spent else [])
                    tgt = None
                    while dq:
                        x = dq.popleft()
                        if uncovered.get(x):
                            tgt = x
                            break
                        for oa, y in adj.get(x, ()):
                            if y not in prev and y not in spent:
                                prev[y] = (x, oa)
                                dq.append(y)
                    if tgt is None:
                        spent.update(prev)
                        if k == k0:
                            done = True
                        break
                    path = []
                    x = tgt
                    while prev[x] is not None:
                        path.append(prev[x])
                        x = prev[x][0]
                    for (x, oa) in reversed(path):
                        k = emit(x, oa)
                        steps += 1
                    if len(script) > limit:
                        done = True
                        self.stats['cover_truncated'] = 1
                        break
                if not edges.get(k0):
                    done = True
        self.stats['uncovered_edges'] = sum(len(v) for v in uncovered.values())
        self.stats['cover_steps'] = len(script)
        # random walks: pick an op name uniformly, then its arguments
        byop = {}
        for k, v in edges.items():
            d = defaultdict(list)
            for oa in v:
                d[oa[2:oa.index('"', 2)]].append(oa)
            byop[k] = d
        n = self.u.walk * (self.u.t_rand if self.thorough() else 1)
        inits = list(self.inits.items())
        cnt = 0
        while cnt < n and inits:
            ckey, (k, obs0) = rng.choice(inits)
            script.append(('["reset",%s]' % ckey, 0, obs0))
            cnt += 1
            ln = rng.choice([20, 60, 200, 600])
            endp = 0.15
            for _ in range(ln):
                d = byop.get(k)
                if not d:
                    break
                ops = list(d)
                op = rng.choice(ops)
                if op == 'end' and len(ops) > 1 and rng.random() > endp * .1:
                    op = rng.choice([o for o in ops if o != 'end'])
                k = emit(k, rng.choice(d[op]))
                cnt += 1
            else:
                d = byop.get(k)
                if d and 'end' in d:
                    k = emit(k, d['end'][0])
                    cnt += 1
        self.stats['random_steps'] = cnt
        return script

    def expand_script(self, script):
        """concrete variants sharing one abstract configuration"""
        if not self.u.expand:
            return script
        out = []
        # split in walks
        walks, cur = [], None
        for s in script:
            if s[0].startswith('["reset"'):
                cur = []
                walks.append(cur)
            cur.append(s)
        for w in walks:
            cfg = json.loads(w[0][0])[1]
            for v in self.u.expand(cfg):
                out.append(('["reset",%s]' % jd(v), w[0][1], w[0][2]))
                out.extend(w[1:])
        return out

    def replay(self, script, tag='walk'):
        """spec -> code"""
        lines = [s[0] for s in script]
        nchunk = min(6, max(1, len(lines) // 20000))
        # chunk at resets
        idx = [i for i, l in enumerate(lines) if l.startswith('["reset"')]
        bounds = [0]
        for c in range(1, nchunk):
            t = len(lines) * c // nchunk
            j = next((i for i in idx if i >= t), len(lines))
            if j > bounds[-1] and j < len(lines):
                bounds.append(j)
        bounds.append(len(lines))
        parts = [(bounds[i], bounds[i + 1]) for i in range(len(bounds) - 1)]

        def one(pi):
            a, b = parts[pi]
            return self.replay_part(script[a:b], '%s%d' % (tag, pi))
        with ThreadPoolExecutor(len(parts)) as ex:
            res = list(ex.map(one, range(len(parts))))
        for r in res:
            if r:
                raise Violation(r)
        self.stats['replayed_steps'] += len(lines)
        self.stats['replayed_walks'] += len(idx)

    def replay_part(self, script, tag):
        ev, crash = self.drive([s[0] for s in script], tag)
        if crash:
            ev, crash = self.drive([s[0] for s in script], tag, lineflush=True)
        bad = self.compare(script, ev)
        if bad is None and crash:
            bad = (len(ev), 'crash', crash)
        if bad is None and len(ev) != len(script):
            raise Broken('driver event count %d != script %d' % (len(ev), len(script)))
        if bad is None:
            for s in script:
                self.opcount[s[0][2:s[0].index('"', 2)]] += 1
            return None
        i = bad[0]
        # the walk from its reset, re-run alone to confirm
        j = i
        while j > 0 and not script[j][0].startswith('["reset"'):
            j -= 1
        walk = script[j:i + 1]
        ev2, crash2 = self.drive([s[0] for s in walk], tag + '_confirm', lineflush=True)
        bad2 = self.compare(walk, ev2)
        alone = bad2 is not None or crash2 is not None
        if not alone:
            full, crash3 = self.drive([s[0] for s in script[:i + 1]], tag + '_confirm2', lineflush=True)
            if self.compare(script[:i + 1], full) is None and not crash3:
                self.stats['unconfirmed'] += 1
                return None
            walk = script[:i + 1]
        return dict(kind='spec->code', unit=self.u.name, spec=self.u.spec, script=[s[0] for s in walk],
                    op=script[i][0], expected=dict(r=script[i][1], o=script[i][2]), got=bad[1], detail=bad[2])

    def compare(self, script, ev):
        for i, (s, e) in enumerate(zip(script, ev)):
            try:
                d = json.loads(e)
            except ValueError:
                return (i, 'unparsable', e[:300])
            if 'skip' in d:
                return (i, 'operation refused by the implementation', e[:500])
            if d['r'] != s[1] or (d['op'] != 'end' and d['o'] != s[2]):
                return (i, dict(r=d['r'], o=d['o']), '')
        return None

    # ---------------------------------------------------------------- traces
    def validate(self, lines, tag):
        """code -> spec; lines = script. Raises Violation."""
        ev, crash = self.drive(lines, tag)
        if crash:
            ev, crash = self.drive(lines, tag, lineflush=True)
        kept = [e for e in ev if '"skip":1' not in e]
        self.stats['skipped_events'] += len(ev) - len(kept)
        bad = None
        if kept:
            bad = self.tv(kept, tag)
        if bad is not None or crash:
            # confirm
            ev2, crash2 = self.drive(lines, tag + '_confirm', lineflush=True)
            kept2 = [e for e in ev2 if '"skip":1' not in e]
            bad2 = self.tv(kept2, tag + '_confirm') if kept2 else None
            if bad2 is None and crash2 is None:
                self.stats['unconfirmed'] += 1
                return
            if bad2 is not None:
                i, exp = bad2
                # position in the script
                pos = [k for k, e in enumerate(ev2) if '"skip":1' not in e][i]
                j = pos
                while j > 0 and not lines[j].startswith('["reset"'):
                    j -= 1
                raise Violation(dict(kind='code->spec', unit=self.u.name, spec=self.u.spec,
                                     script=lines[j:pos + 1], op=lines[pos], expected=exp, got=kept2[i], detail=''))
            i = len(ev2)
            j = min(i, len(lines) - 1)
            while j > 0 and not lines[j].startswith('["reset"'):
                j -= 1
            raise Violation(dict(kind='code->spec', unit=self.u.name, spec=self.u.spec,
                                 script=lines[j:i + 1], op=lines[min(i, len(lines) - 1)], expected='completion',
                                 got='crash', detail=crash2))
        self.stats['traces'] += sum(1 for e in kept if e.startswith('{"op":"reset"'))
        self.stats['trace_events'] += len(kept)
        for e in kept:
            self.opcount[e[7:e.index('"', 7)]] += 1
        if kept and len(self.samples) < 2:
            self.samples.append([json.loads(e) for e in kept[:6]])

    def tv(self, kept, tag):
        """None if TLC accepts, else (index of the rejected event, spec's answer)"""
        p = os.path.join(self.dir, tag + '.ndjson')
        with open(p, 'w') as f:
            f.write('\n'.join(kept) + '\n')
        d, c = self.const_lines(self.u.consts)
        mod = '''---- MODULE TV ----
EXTENDS %s, Json
%s
VARIABLE l
Trace == ndJsonDeserialize("%s")
J(x) == ToJson(x)
\\* observations are records of scalars / nested sequences; compare field by field
OEq(x, e) == e.op = "end" \\/ (DOMAIN x = DOMAIN e.o /\\ \\A k \\in DOMAIN x : J(x[k]) = J(e.o[k]))
Say(x) == PrintT(ToJson(x))
TVInit == l = 1 /\\ InitCfg(Trace[1].a)
    /\\ (OEq(Obs, Trace[1]) \\/ (Say(<<"MISMATCH", 1, 0, Obs>>) /\\ FALSE))
TVNext ==
  /\\ l < Len(Trace)
  /\\ l' = l + 1
  /\\ LET e == Trace[l + 1] IN
       /\\ IF e.op = "reset" THEN Reset(e.a) ELSE Do(e.op, e.a)
       /\\ \\/ (e.op = "reset" \\/ J(act'.r) = J(e.r)) /\\ OEq(Obs', e)
          \\/ /\\ ~((e.op = "reset" \\/ J(act'.r) = J(e.r)) /\\ OEq(Obs', e))
             /\\ Say(<<"MISMATCH", l + 1, act'.r, Obs'>>) /\\ FALSE
TVDone == PrintT(<<"DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
====
''' % (self.u.spec, d, p)
        cfg = c + '\nINIT TVInit\nNEXT TVNext\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TVDone\n'
        for i in self.u.invariants:
            cfg += 'INVARIANT %s\n' % i
        name = 'TV'
        sub = Run.__new__(Run)
        sub.u, sub.dir = self.u, os.path.join(self.dir, tag + '_tv')
        os.makedirs(sub.dir, exist_ok=True)
        rc, out = sub.tlc(name, mod, cfg, workers='1', mem='3g')
        text = open(out, errors='replace').read()
        m = re.search(r'<<"DIAMETER", (\d+), (\d+)>>', text)
        mm = re.search(r'^"(\[\\"MISMATCH.*)"$', text, re.M)
        if m and 'No error has been found' in text and m.group(1) == m.group(2):
            shutil.rmtree(sub.dir, ignore_errors=True)
            os.unlink(p)
            return None
        if mm:
            rec = json.loads(json.loads('"' + mm.group(1) + '"'))
            return (rec[1] - 1, dict(r=rec[2], o=rec[3]))
        if m and 'No error has been found' in text:
            return (int(m.group(1)), 'operation not enabled in the specification')
        raise Broken('TLC error in trace validation of %s:\n%s' % (self.u.spec, text[-4000:]))

    # ---------------------------------------------------------------- all
    def run(self):
        u = self.u
        rng = random.Random('%s/%s/%d' % (self.prop, u.name, self.seed))
        with ThreadPoolExecutor(2) as ex:
            fb = ex.submit(self.build)
            fg = ex.submit(self.graph) if u.graph else None
            fb.result()
            tvs = []
            with ThreadPoolExecutor(4) as ex2:
                if u.rand:
                    nbatch = 1 if not self.thorough() else u.t_rand
                    for b in range(nbatch):
                        lines = [jd(x) for x in u.rand(random.Random('%s/%d/%d' % (u.name, self.seed, b)), u.rand_n)]
                        tvs.append(ex2.submit(self.validate, lines, 'rand%d' % b))
                if fg:
                    fg.result()
                    t0 = time.time()
                    script = self.expand_script(self.walks(rng))
                    self.samples.append(dict(walk=[s[0] for s in script[:12]]))
                    self.edges = None
                    self.replay(script)
                    self.stats['replay_ms'] = int((time.time() - t0) * 1000)
                for t in tvs:
                    t.result()


def run_property(prop, units, tier, seed, level='model_checking', assumptions=(), probes=()):
    t0 = time.time()
    outdir = os.path.join(OUT, '%s-%s' % (prop, tier))
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    runs = [Run(prop, u, tier, seed, outdir) for u in units]
    violations, broken = [], []

    def one(r):
        try:
            r.run()
        except Violation as v:
            violations.append(v.info)
        except Broken as b:
            broken.append('%s: %s' % (r.u.name, b))
    par = 1 if tier == 'thorough' else 3
    with ThreadPoolExecutor(par) as ex:
        list(ex.map(one, runs))
    # known findings: probes are replayed separately and never stop the check
    known = load_known(prop)
    byname = {r.u.name: r for r in runs}
    for k in known:
        if k.get('fixed'):
            continue
        r = byname.get(k['unit'])
        if r is None or not hasattr(r, 'exe'):
            continue
        lines = [jd(x) for x in k['script']]
        ev, crash = r.drive(lines, 'known', lineflush=True, timeout=20)
        last = json.loads(ev[-1]) if ev and len(ev) == len(lines) else None
        if last is None or last.get('r') != k['expected'].get('r', last.get('r')) or \
                last.get('o') != k['expected'].get('o', last.get('o')):
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']), flush=True)
    stats = defaultdict(int)
    ops = defaultdict(int)
    samples = []
    for r in runs:
        for k, v in r.stats.items():
            stats[k] += v
        for k, v in r.opcount.items():
            ops['%s.%s' % (r.u.name, k)] += v
        samples += r.samples[:2]
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(states=stats['states'], transitions=stats['transitions'],
                            traces_validated_against_impl=stats['traces'] + stats['replayed_walks'],
                            exhaustive=all(r.u.graph for r in runs) and stats['uncovered_edges'] == 0,
                            samples=samples[:6], op_counts=dict(ops), detail={r.u.name: dict(r.stats) for r in runs}),
              assumptions=list(assumptions) or ['TLC, the drivers in /verif/drivers and the compiler are trusted',
                                                'states beyond the stated bounds are sampled by random traces only'],
              violations=len(violations), wall_s=round(time.time() - t0, 1))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for i, v in enumerate(violations):
        path = os.path.join(outdir, 'violation%d.json' % i)
        v['property'] = prop
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('-- %s unit %s: %s\n   op %s\n   spec expects %s\n   implementation: %s %s' %
              (v['kind'], v['unit'], v['spec'], v['op'], jd(v['expected']), jd(v['got'])[:1500], str(v['detail'])[:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
    if violations:
        return 1
    if broken:
        for b in broken:
            print('ERROR: ' + b)
        return 2
    print('OK property=%s states=%d transitions=%d walks=%d steps=%d traces=%d events=%d skipped=%d unconfirmed=%d wall=%.1fs' %
          (prop, stats['states'], stats['transitions'], stats['replayed_walks'], stats['replayed_steps'],
           stats['traces'], stats['trace_events'], stats['skipped_events'], stats['unconfirmed'], time.time() - t0))
    if os.environ.get('VF_KEEP') is None:
        for r in runs:
            shutil.rmtree(r.dir, ignore_errors=True)
    return 0


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop]


def replay_file(path, units):
    v = json.load(open(path))
    u = next(u for u in units if u.name == v['unit'])
    r = Run(v['property'], u, 'quick', 1, os.path.join(OUT, 'replay'))
    r.build()
    ev, crash = r.drive(v['script'], 'replay', lineflush=True)
    for s, e in zip(v['script'], ev):
        print(e)
    if crash:
        print('CRASH', crash)
    print('expected at the last step:', jd(v['expected']))
