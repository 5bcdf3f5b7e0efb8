#!/usr/bin/env python3
"""regenerate DESIGN.md: doc/head.md + one section per property + seeded bugs + fixes + doc/tail.md"""
import json, os, sys, glob, importlib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + '/lib', H + '/components', H + '/doc']
sys.dont_write_bytecode = True
from registry import CATALOG
from notes import NOTES
out = [open(H + '/doc/head.md').read().rstrip(), '\n\n## Properties\n']
for k, c in sorted(CATALOG.items()):
    ev = {}
    try:
        ev = json.load(open(H + '/evidence/%s.json' % k)).get('coverage', {})
    except OSError:
        pass
    out.append('\n### %s %s\n\n%s\n\n%s\n' % (k, c['title'], c['statement'], NOTES.get(k, '')))
    units = []
    for m in c['modules']:
        for u in importlib.import_module(m).UNITS:
            units.append('`%s` (specs/%s.tla, drivers/%s)' % (u.name, u.spec, ([u.driver] if isinstance(u.driver, str) else u.driver)[0].split(':')[0]))
    out.append('\n* Units: ' + '; '.join(units))
    out.append('\n* Quantified: ' + c['text'])
    out.append('\n* Out of reach of tests: ' + c['why'])
    out.append('\n* Anchors: ' + ', '.join('`%s`' % f for f in c['files']))
    if ev:
        out.append('\n* Last quick run: %s states, %s transitions of the specification, %s behaviours bound to the code.' % (ev.get('states'), ev.get('transitions'), ev.get('traces_validated_against_impl')))
    out.append('\n')
out.append('\n## Planted bugs\n\nEach is confirmed (builds, stable tests pass, its demonstration fails) and tried with its property\'s check (`tools/seedtest.sh`).\n\n| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n')
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    out.append('| %s | %s | %s | %s | %s |\n' % (i, m['property'], m['needs'], m['what_it_breaks'], m.get('caught_by', m['property'])))
kf = json.load(open(H + '/known_findings.json'))
out.append('\n## Genuine defects found\n\nRepaired by `fix:` commits in /repo (each was first reported by the check as a violation of the property named):\n\n')
out += ['* %s\n' % l[len('fixed: '):] for l in kf['fixed']]
out.append('\nKnown findings (reported on every run, not repaired):\n\n' + ''.join('* %s\n' % json.dumps(x) for x in kf['findings']) + ('none\n' if not kf['findings'] else ''))
out.append('\n' + open(H + '/doc/tail.md').read())
open(H + '/DESIGN.md', 'w').write(''.join(out))
