"""writes MANIFEST.json from the table below (run after adding a check)"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_IR = ('contract-based deductive verification: contracts on the functions of /repo, obligations generated from the LLVM IR '
        'of the current source, discharged by z3/cvc5; failed obligations are replayed on the compiled code')
CLAIMED = {}
NA = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
checks = []
for pid in sorted(CLAIMED):
    note, tech, level = (CLAIMED[pid] + (None, None))[:3] if isinstance(CLAIMED[pid], tuple) else (CLAIMED[pid], None, None)
    checks.append({'property': pid,
                   'quick_cmd': 'python3-vt engine/check.py %s --tier quick' % pid,
                   'thorough_cmd': 'python3-vt engine/check.py %s --tier thorough' % pid,
                   'evidence_file': 'evidence/%s.json' % pid,
                   'technique': tech or T_IR, 'level': level or 'proof', 'level_note': note})
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
na = [{'property': p, 'reason': NA.get(p, 'not claimed yet: the contracts for it are not written')}
      for p in props if p not in CLAIMED]
m = {'version': 1, 'setup_cmd': 'python3-vt engine/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'no hooks in /repo: the checks read the unmodified sources'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
