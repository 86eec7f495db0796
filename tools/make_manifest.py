"""Writes MANIFEST.json: claimed are the properties with a checks/pXX.py."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
  checks, missing = [], []
  for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    path = os.path.join(ROOT, 'checks', p['id'].lower() + '.py')
    if not os.path.exists(path):
      missing.append({'property': p['id'], 'reason': 'check not built yet'})
      continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
      if isinstance(node, ast.Assign) and len(node.targets) == 1:
        try:
          consts[node.targets[0].id] = ast.literal_eval(node.value)
        except ValueError:
          pass
    checks.append({
        'property': p['id'],
        'quick_cmd': f"./check {p['id']} --tier quick",
        'thorough_cmd': f"./check {p['id']} --tier thorough",
        'technique': consts.get('TECHNIQUE', 'runtime monitoring'),
        'level': 'exploration',
        'level_note': consts.get('LEVEL_NOTE', consts['RULE']),
    })
  manifest = {
      'version': 1,
      'setup_cmd': './check --self-test',
      'checks': checks,
      'not_applicable': missing,
  }
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
  print(len(checks), 'checks,', len(missing), 'not claimed')


main()
