import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
PY = '/opt/venv/bin/python harness/run_check.py'
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python harness/setup.py',
     'checks': [{'property': i, 'quick_cmd': '%s %s quick' % (PY, i), 'thorough_cmd': '%s %s thorough' % (PY, i),
                 'evidence_file': 'evidence/%s.json' % i,
                 'technique': 'TLA+ specification checked with TLC; model behaviours replayed on, and recorded runs of, the real '
                              'code judged call by call against the specification (trace validation)',
                 'level': 'model_checking',
                 'level_note': 'Exhaustive over the finite models named in the evidence; beyond them, every call of the generated '
                               'sessions is judged by TLC against an exact-arithmetic specification. Inputs of the sessions are '
                               'sampled (seeded). Trusted: TLC, the Java overrides of the arithmetic (checked against the pure TLA+ definitions), '
                               'the JSON codec of the harness. Facts nearer to a decision boundary than rounding can settle are left undecided.'}
                for i in ids],
     'not_applicable': [],
     'notes': 'No hooks in /repo: all observation is through the public API. Known finding K1 (property C18) is in KNOWN_FINDINGS.txt.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
