#!/usr/bin/env python3
"""mutate.py PROP [-n MAX] [-f FILE-SUBSTRING]: mutation analysis of one property's drivers.

Records what the unmodified code answers to the scripts of the quick check (after TLC has
accepted them), finds which lines of the property's files the drivers execute (gcov), mutates those
lines one at a time in private copies of src/ under /tmp, and lists the mutants whose answers do not
differ.  A tool for improving the checks; no check uses it."""
import sys, os, re, json, random, shutil, subprocess, argparse, hashlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'components'), HERE]
sys.dont_write_bytecode = True
import vf
from check import units_of
from concurrent.futures import ThreadPoolExecutor
import threading

ap = argparse.ArgumentParser()
ap.add_argument('prop'); ap.add_argument('-n', type=int, default=150); ap.add_argument('-f', default='')
ap.add_argument('--files', nargs='*'); ap.add_argument('-u'); ap.add_argument('--cov', action='store_true'); ap.add_argument('--all', action='store_true')
A = ap.parse_args()
W = '/tmp/mut/' + A.prop
shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
props = {json.loads(l)['id']: json.loads(l) for l in open(HERE + '/properties.jsonl')}
files = A.files or [f.split(':')[0] for f in props[A.prop]['anchors']['files']]
units = [u for u in units_of(A.prop) if not A.u or u.name == A.u]

def base(u):
    r = vf.Run(A.prop, u, 'quick', 1, W)
    rng = random.Random('%s/%s/%d' % (A.prop, u.name, 1))
    r.build()
    scripts = []
    if u.graph:
        r.graph()
        scripts.append([s[0] for s in r.expand_script(r.walks(rng))])
        r.edges = None
    if u.rand:
        scripts.append([vf.jd(x) for x in u.rand(random.Random('%s/%d/%d' % (u.name, 1, 0)), u.rand_n)])
    outs = []
    for i, s in enumerate(scripts):
        ev, crash = r.drive(s, ('rand%d' if i else 's%d') % i)
        outs.append((os.path.join(r.dir, ('rand%d' if i else 's%d') % i + '.script'), hashlib.md5('\n'.join(ev).encode()).hexdigest(), crash))
        pass
    # gcov
    u2flags = u.flags
    u.flags = list(u.flags) + ['--coverage']
    c = vf.Run(A.prop, u, 'quick', 1, os.path.join(W, 'cov'))
    lines = {}
    try:
        os.makedirs(c.dir, exist_ok=True)
        common = ['-I%s/src' % vf.REPO, '-I%s/drivers' % HERE, '-DFEATURE_ESTD_COMPILE_STRICTNESS=4', '-DFEATURE_ESTD_COMPILE_VERBOSITY=0', '-w', '-O0', '-g1', '--coverage', '-DVF_GCOV'] + ['-D' + d for d in u.defines] + u.flags
        objs = []
        for i, d in enumerate(u.driver):
            src, _, part = d.partition(':')
            o = os.path.join(c.dir, 'd%d.o' % i); objs.append(o)
            subprocess.run(['g++', '-std=' + u.std] + common + (['-DDRIVER_MAIN'] if i == 0 else []) + (['-D' + part] if part else []) + ['-c', os.path.join(HERE, 'drivers', src), '-o', o], check=True)
        for s in u.libsrc:
            o = os.path.join(c.dir, os.path.basename(s) + '.o'); objs.append(o)
            subprocess.run([('gcc' if s.endswith('.c') else 'g++')] + ([] if s.endswith('.c') else ['-std=' + u.std]) + common + ['-c', os.path.join(vf.REPO, s), '-o', o], check=True)
        exe = os.path.join(c.dir, 'drv')
        subprocess.run(['g++', '--coverage'] + objs + ['-o', exe, '-lpthread'], check=True)
        for s, _, _ in outs:
            subprocess.run([exe], stdin=open(s), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for o in objs:
            subprocess.run(['gcov', '-r', '-s', vf.REPO, '--json-format', '-t', o], cwd=c.dir, stdout=open(os.path.join(c.dir, 'g.json'), 'w'), stderr=subprocess.DEVNULL)
            for l in open(os.path.join(c.dir, 'g.json')):
                try: g = json.loads(l)
                except ValueError: continue
                for f in g['files']:
                    p = os.path.relpath(os.path.normpath(os.path.join(vf.REPO, f['file'])), vf.REPO)
                    d = lines.setdefault(p, {})
                    for x in f['lines']:
                        d[x['line_number']] = d.get(x['line_number'], 0) + x['count']
    finally:
        u.flags = u2flags
    return r, outs, lines

with ThreadPoolExecutor(4) as ex:
    B = list(ex.map(base, units))
cov = {}
for _, _, l in B:
    for f, d in l.items():
        e = cov.setdefault(f, {})
        for k, v in d.items():
            e[k] = e.get(k, 0) + v
if A.all:
    files = sorted(f for f in cov if f.startswith('src/'))
files = [f for f in files if A.f in f]
if A.cov:
    for f in files:
        src = open(os.path.join(vf.REPO, f)).read().split('\n')
        z = sorted(k for k, v in cov.get(f, {}).items() if v == 0)
        print('==', f, 'executed', sum(1 for v in cov.get(f, {}).values() if v), 'not', len(z))
        for k in z:
            print('   %d: %s' % (k, src[k - 1].strip()[:140]))

def mutants(text, ln):
    """(description, new line)"""
    l = text
    code = l.split('//')[0]
    st = code.strip()
    if not st or st[0] in '#*' or st.startswith(('template', 'typedef', 'using', 'static_assert', 'assert', 'class', 'struct')):
        return
    def sub(rx, to, n=None):
        for m in re.finditer(rx, code):
            new = code[:m.start()] + m.expand(to) + code[m.end():]
            yield new
    pairs = [(r' < (?!<)', ' <= '), (r' > (?!>)', ' >= '), (r'(?<!<) <= ', ' < '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
             (r'(?<=[\w\)\]]) \+ 1\b', ''), (r'(?<=[\w\)\]]) - 1\b', ''), (r'(?<=[\w\)\]]) \+ ', ' - '), (r'(?<=[\w\)\]]) - ', ' + '),
             (r' && ', ' || '), (r' \|\| ', ' && '), (r'\(!', '('), (r'return !', 'return '), (r'\breturn true;', 'return false;'), (r'\breturn false;', 'return true;'),
             (r'\bif ?\((.*)\)(\s*(return.*)?)$', r'if(!(\1))\2'), (r'\+\+', '--'), (r'(?<!-)--', '++'), (r' \+= ', ' -= '), (r' -= ', ' += '),
             (r'(?<![\w.])0(?![\w.x])', '1'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])1(?![\w.])', '0'), (r'\bbegin\(\)', 'end()'), (r'\bfirst\b', 'last'), (r' \* ', ' + '), (r' % ', ' / '), (r' \? ', ' ? !'), (r'(\w+) \? ', r'!\1 ? ')]
    seen = set()
    for rx, to in pairs:
        for new in sub(rx, to):
            if new != code and new not in seen:
                seen.add(new); yield new
    if re.match(r'^[\w:\.\->\[\]\*\(\)\+&, ]+(\(.*\)|=.*|\+\+|--)?;$', st) and not st.startswith(('return', 'typedef', 'else', 'const ', 'static', 'bool ', 'int ', 'auto ', 'size_type ', 'break', 'continue', 'default')) and not re.match(r'^[\w:<>]+[ \*&]+\w+( =|;|\()', st):
        yield code.replace(st, ';')
    if re.match(r'^[\+\-]{2}\w+;$|^\w+[\+\-]{2};$', st):
        yield code.replace(st, ';')

rng = random.Random(7)
M = []
for f in files:
    p = os.path.join(vf.REPO, f)
    if not os.path.exists(p):
        continue
    src = open(p).read().split('\n')
    incomment = False
    ex = {k for k, v in cov.get(f, {}).items() if v}
    for i, l in enumerate(src):
        # continuation lines are attributed to their first line: allow neighbours
        if not ({i + 1, i} & ex):
            continue
        for new in mutants(l, i):
            M.append((f, i, l, new))
tot = len(M)
rng.shuffle(M)
M = M[:A.n]
print('%d candidate mutants, testing %d' % (tot, len(M)), flush=True)
local = threading.local(); ctr = [0]; lock = threading.Lock()

def test(m):
    f, i, old, new = m
    if not hasattr(local, 'd'):
        with lock:
            ctr[0] += 1; n = ctr[0]
        local.d = os.path.join(W, 'w%d' % n)
        os.makedirs(local.d); shutil.copytree(vf.REPO + '/src', local.d + '/src')
    p = os.path.join(local.d, f)
    src = open(p).read().split('\n'); keep = list(src)
    src[i] = new
    open(p, 'w').write('\n'.join(src))
    res = 'SURVIVED'
    try:
        anyc = False
        for u, (r, outs, lines) in zip(units, B):
            if not (lines.get(f, {}).get(i + 1) or lines.get(f, {}).get(i)):
                continue
            common = ['-I%s/src' % local.d, '-I%s/drivers' % HERE, '-DFEATURE_ESTD_COMPILE_STRICTNESS=4', '-DFEATURE_ESTD_COMPILE_VERBOSITY=0', '-w', u.opt, '-g0', '-fsanitize=address'] + ['-D' + d for d in u.defines] + u.flags
            objs = []
            bad = False
            for k, d in enumerate(u.driver):
                s, _, part = d.partition(':')
                o = os.path.join(local.d, 'd%d.o' % k); objs.append(o)
                if subprocess.run(['g++', '-std=' + u.std] + common + (['-DDRIVER_MAIN'] if k == 0 else []) + (['-D' + part] if part else []) + ['-c', os.path.join(HERE, 'drivers', s), '-o', o], capture_output=True).returncode:
                    bad = True; break
            for s in u.libsrc if not bad else ():
                o = os.path.join(local.d, os.path.basename(s) + '.o'); objs.append(o)
                if subprocess.run([('gcc' if s.endswith('.c') else 'g++')] + ([] if s.endswith('.c') else ['-std=' + u.std]) + common + ['-c', os.path.join(local.d, s), '-o', o], capture_output=True).returncode:
                    bad = True; break
            exe = os.path.join(local.d, 'drv')
            if bad or subprocess.run(['g++', '-fsanitize=address'] + objs + ['-o', exe, '-lpthread'], capture_output=True).returncode:
                return m, 'nocompile'
            for k, (s, h, c) in enumerate(outs):
                env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=%d' % (0x5a if k else 0xa5))
                ep = os.path.join(local.d, 'ev')
                try:
                    q = subprocess.run([exe], stdin=open(s), stdout=open(ep, 'w'), stderr=subprocess.DEVNULL, env=env, timeout=60)
                except subprocess.TimeoutExpired:
                    return m, 'killed (hang)'
                if q.returncode:
                    return m, 'killed (crash)'
                if hashlib.md5(open(ep, errors='replace').read().rstrip('\n').encode()).hexdigest() != h:
                    return m, 'killed'
    finally:
        open(p, 'w').write('\n'.join(keep))
    return m, res

from collections import Counter
C = Counter()
S = []
with ThreadPoolExecutor(8) as ex:
    for m, r in ex.map(test, M):
        C[r] += 1
        if r == 'SURVIVED':
            S.append(m)
print(dict(C))
for f, i, old, new in sorted(S):
    print('%s:%d\n   - %s\n   + %s' % (f, i + 1, old.strip(), new.strip()))
shutil.rmtree(W, ignore_errors=True)
