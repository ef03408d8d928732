"""Writes MANIFEST.json from the checks that exist (python3 tools/manifest.py)."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}   # property -> reason, for properties that are not claimed
na_path = os.path.join(HERE, 'tools', 'not_applicable.json')
if os.path.exists(na_path):
    NA = json.load(open(na_path))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    path = os.path.join(HERE, 'checks', pid.lower() + '.py')
    if not os.path.exists(path) or pid in NA:
        na.append({'property': pid, 'reason': NA.get(
            pid, 'no check has been built for this property yet')})
        continue
    vals = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                vals[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append({
        'property': pid,
        'quick_cmd': './check %s --tier quick' % pid,
        'thorough_cmd': './check %s --tier thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': vals['TECHNIQUE'],
        'level': vals.get('LEVEL', 'model_checking'),
        'level_note': vals['NOTE'],
    })
json.dump({'version': 1, 'setup_cmd': './setup', 'checks': checks,
           'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
