"""Writes MANIFEST.json from the checks that exist."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8')]
checks, na = [], []
for p in props:
    path = os.path.join(HERE, 'checks', p['id'].lower() + '.py')
    if not os.path.exists(path):
        na.append({'property': p['id'], 'reason': 'not claimed yet: its check is still being built'})
        continue
    const = {}
    for node in ast.parse(open(path, encoding='utf-8').read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                const[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    note = const.get('NOTE') or ('Generated cases only; the oracle is trusted: ' + const.get('ORACLE', 'see DESIGN.md'))
    if const.get('ASSUMPTIONS'):
        note += ' Assumes: ' + '; '.join(const['ASSUMPTIONS']) + '.'
    checks.append({'property': p['id'],
                   'quick_cmd': './run.sh %s quick' % p['id'],
                   'thorough_cmd': './run.sh %s thorough' % p['id'],
                   'technique': const.get('TECHNIQUE', 'property-based testing: generated documents against a reference model (Hypothesis)'),
                   'level': const.get('LEVEL', 'exploration'),
                   'level_note': note,
                   'evidence_file': 'evidence/%s.json' % p['id']})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks drive the public interfaces of a scratch copy of /repo. See DESIGN.md.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
print(len(checks), 'checks', len(na), 'not claimed')
