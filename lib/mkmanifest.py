#!/usr/bin/env python3
"""writes MANIFEST.json from the table of built checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib'); sys.dont_write_bytecode = True
import props
COMMON = ('Bounded: TLC explores the specification exhaustively only for the small constants named in the evidence file; the '
          'implementation is decided on the executions recorded in this run (every transition of the small state graph, plus '
          'seeded random histories), each of which TLC accepts or refuses as a behaviour of the specification. Trusts TLC, '
          'gcc/ASan and the C interpreter that logs the abstract state.')
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in props.CHECKS:
        t, note = props.TECH.get(i, ('', ''))
        m['checks'].append({'property': i, 'quick_cmd': 'bin/check %s' % i, 'thorough_cmd': 'bin/check %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'TLA+ specification %s; TLC trace validation of the real code' % t,
            'level': 'model_checking', 'level_note': (note + ' ' if note else '') + COMMON})
    else:
        m['not_applicable'].append({'property': i, 'reason': props.NA.get(i, 'check not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
