#!/usr/bin/env python3
# Refresh the "fixed" list of known_findings.json from /repo's "fix:" commits
# (each names its property in a "Property:" trailer; the first ones by position).
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OLD = dict(C01='5fa46ca 28c7600 475e0d8', C03='19bdf73 63c3c7f d5c63a2 97e74bf e463335 d14bf89 27d9c9a 88ac60d',
           C04='e973a63 d698345 b525039 b4bc382 d698395', C05='d9ba312 bd16912')
old = {h: p for p, l in OLD.items() for h in l.split()}
p = os.path.join(V, 'known_findings.json')
k = json.load(open(p)) if os.path.exists(p) else {'findings': []}
k['fixed'] = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h\t%s\t%(trailers:key=Property,valueonly,separator=%x2C)'],
                                 text=True).splitlines():
    h, s, t = l.split('\t')
    if s.startswith('fix:'):
        k['fixed'].append('fixed: property=%s %s %s' % (t or old.get(h, 'C06'), h, s[5:]))
json.dump(k, open(p, 'w'), indent=1)
