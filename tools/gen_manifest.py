#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py, lib/na.py and properties.jsonl."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.dont_write_bytecode = True
import props
import na

ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, out = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    else:
        out.append({'property': i, 'reason': na.NOT_APPLICABLE.get(i, na.PENDING)})
for i in props.PROPS:
    assert i in ids, i
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'lib\'); import facts; facts.build_driver()"',
               'checks': checks, 'not_applicable': out}, f, indent=1)
    f.write('\n')
print('claimed', len(checks), 'not claimed', [o['property'] for o in out])
