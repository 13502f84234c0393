#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
from props import PROPS, NOT_APPLICABLE
with open('properties.jsonl', 'w') as f:
    for id in sorted(list(PROPS) + list(NOT_APPLICABLE)):
        p = PROPS.get(id) or NOT_APPLICABLE[id]
        f.write(json.dumps({'id': id, 'title': p['title'], 'statement': p['statement'], 'quantifier': p['quantifier'], 'why_tests_cant': p['why'], 'anchors': p['anchors']}) + '\n')
TECH = 'symbolic execution of the LLVM bitcode rustc emits for the crate; Z3 decides every branch, table access and assertion; counterexamples replayed natively'
NOTE = 'Holds for every value of the symbolic inputs within the stated bounds, every path explored (evidence says whether to the end). Bounds: %s Assumes: %strusted base rustc to bitcode, the rsym executor (sampled paths are replayed natively and compared), Z3.'
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': [], 'not_applicable': [{'property': k, 'reason': v['reason']} for k, v in sorted(NOT_APPLICABLE.items())],
     'notes': 'No hooks in /repo: the harness uses the public API only. Every check rebuilds bitcode and replay binary from /repo\'s working tree.'}
for id, p in sorted(PROPS.items()):
    m['checks'].append({'property': id, 'quick_cmd': 'python3 check.py %s quick' % id, 'thorough_cmd': 'python3 check.py %s thorough' % id, 'evidence_file': 'evidence/%s.json' % id, 'technique': TECH, 'level': 'model_checking', 'level_note': NOTE % (p['bounds'], ''.join(a + ' ' for a in p['assumptions']))})
json.dump(m, open('MANIFEST.json', 'w'), indent=1); open('MANIFEST.json', 'a').write('\n')
