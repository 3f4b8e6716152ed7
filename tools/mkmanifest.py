#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/plans.py (run by hand; the output is committed)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'harness'))
from plans import PLAN
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NOTE = ('TLC model-checks the specification modules named in DESIGN.md exhaustively within their bounds, and every recorded call '
        'of the replayed model behaviours and seeded random programs is judged by TLC against the same specification. '
        'Assurance is for the behaviours explored; trusted: TLC, the operator overrides for exact arithmetic (spec/java), '
        'the committed reference catalogue, and the recorder in harness/.')
TECH = {
    'stateless': 'TLA+ specification; TLC model checking; replay of model cases into the library; TLC trace validation of recorded calls',
    'history': 'TLA+ specification; TLC model checking of the state machine; replay of model behaviours; TLC validation of recorded histories',
}
HIST = {'C04', 'C05', 'C06', 'C08', 'C10', 'C13', 'C17', 'C23'}
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': [],
     'notes': 'Specification language: TLA+, checked with TLC 1.8 (see DESIGN.md). No hooks are needed in /repo.'}
for p in props:
    i = p['id']
    if i in PLAN:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i,
                            'technique': TECH['history' if i in HIST else 'stateless'],
                            'level': 'model_checking', 'level_note': (PLAN[i].get('note', '') + ' ' + NOTE).strip()})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'the check is under construction'})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
