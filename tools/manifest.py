"""Writes MANIFEST.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
from plan import PLAN
RUN = ('TLA+ trace validation: recorded runs of the real solver (every residual call, log line, sampling request and the result, exact dyadic '
       'values) are checked by TLC against spec/RunTrace.tla')
checks = []
for p in sorted(PLAN):
    m = PLAN[p]
    checks.append({'property': p, 'quick_cmd': './check %s --tier quick' % p, 'thorough_cmd': './check %s --tier thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': m.get('technique', RUN), 'level': 'model_checking',
                   'level_note': m.get('note', 'TLC decides every clause on every recorded behaviour of the real code with exact arithmetic; '
                                 'the set of behaviours is sampled by seeded scenario generation, not exhaustive')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh',
           'hooks': {'guard': '', 'enable': '', 'source_commits': []},
           'checks': checks,
           'not_applicable': [{'property': q, 'reason': 'check under construction'} for q in ['C%02d' % i for i in range(1, 21)] if q not in PLAN],
           'notes': 'No hooks in /repo: everything is observed through the public API, the logging module and the public methods of the Model class. '
                    'Known findings: KNOWN_FINDINGS.json.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks))
