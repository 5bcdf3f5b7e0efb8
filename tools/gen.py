#!/usr/bin/env python3
"""regenerate properties.jsonl and MANIFEST.json from components/props.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + '/lib', H + '/components']
sys.dont_write_bytecode = True
from registry import CATALOG
NA = []
try:
    from props import NOT_APPLICABLE as NA
except ImportError:
    pass
with open(H + '/properties.jsonl', 'w') as f:
    for k, c in sorted(CATALOG.items()):
        assert len(c['title']) <= 80, (k, len(c['title']))
        f.write(json.dumps(dict(id=k, title=c['title'], statement=c['statement'],
                quantifier=dict(over=c['over'], text=c['text']), why_tests_cant=c['why'],
                anchors=dict(files=c['files'], state=list(c['state']), mechanism=list(c['mech']),
                             observe_at=list(c['observe']), hook_needed=None))) + '\n')
m = dict(version=1, setup_cmd='python3 check.py --list',
         hooks=dict(guard='ESTD_VERIF', enable='no hooks are needed: every property is observed through the public API, so the checks compile /repo/src unmodified', source_commits=[]),
         checks=[dict(property=k, quick_cmd='python3 check.py %s --tier quick' % k,
                      thorough_cmd='python3 check.py %s --tier thorough' % k,
                      evidence_file='evidence/%s.json' % k, technique=c['technique'], level='model_checking',
                      level_note=c['level_note']) for k, c in sorted(CATALOG.items())],
         not_applicable=[dict(property=p, reason=r) for p, r in NA],
         notes='TLA+ with TLC. See DESIGN.md.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(CATALOG), 'properties')
