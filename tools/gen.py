import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props_meta import P, NA
TECH = ('symbolic execution of the optimised LLVM IR rustc emits for the crate (own executor, regenerated on every run); each path assertion decided by z3 '
        '(linear/nonlinear real arithmetic with proved rounding-error bounds, or bit-precise IEEE-754 floating point); models replayed natively before being reported')
checks, lines = [], []
for pid in sorted(P):
    d = P[pid]
    lines.append(json.dumps({'id': pid, 'title': d['title'], 'statement': d['statement'], 'quantifier': {'over': d['over'], 'text': d['text']}, 'why_tests_cant': d['why'],
                             'anchors': {'files': d['files'], 'mechanism': [{'name': n, 'where': w} for n, w in d['mech']]}}))
    if pid in NA:
        continue
    checks.append({'property': pid, 'quick_cmd': 'python3-vt lib/check.py %s quick' % pid, 'thorough_cmd': 'python3-vt lib/check.py %s thorough' % pid, 'technique': TECH,
                   'level': 'other', 'level_note': 'Bounded symbolic check, decided by SMT for all values in bounds. ' + d['note'], 'evidence_file': 'evidence/%s.json' % pid})
open(ROOT + '/properties.jsonl', 'w').write('\n'.join(lines) + '\n')
m = {'version': 1, 'setup_cmd': 'python3-vt lib/build.py', 'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
     'notes': 'See DESIGN.md. No hooks in /repo. An exit status of 2 means the solver gave no verdict for some case (never reported as success).'}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
