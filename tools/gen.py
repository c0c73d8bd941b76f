import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
TECH = ('solver-based: the real code is executed symbolically (TensorFlow '
        'graph built by /repo, or its Python functions) and z3 decides the '
        'assertion over all symbolic inputs; counterexamples are replayed '
        'on the real code')
lines, checks = [], []
for p in PROPS:
    if not os.path.exists(os.path.join(root, 'checks', p['id'].lower() + '.py')):
        continue
    lines.append(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['qtext']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'],
                    'mechanism': [{'name': a, 'where': b}
                                  for a, b in p['mech']],
                    'hook_needed': None}}))
    checks.append({
        'property': p['id'],
        'quick_cmd': './run.sh %s quick' % p['id'],
        'thorough_cmd': './run.sh %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['technique'] or TECH,
        'level': p['level'],
        'level_note': p['note'] or 'complete over the symbolic inputs within '
        'the shape/size bounds stated in DESIGN.md and in the evidence file; '
        'real arithmetic unless stated'})
open(os.path.join(root, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': [],
           'notes': 'No hooks are needed in /repo.'},
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
for p in PROPS:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    n = p['statement'].count('. ') + 1
    assert n <= 3, (p['id'], n)
