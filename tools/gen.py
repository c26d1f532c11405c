#!/opt/venv/bin/python
"""Write properties.jsonl and MANIFEST.json from tools/props.py and the checks themselves."""
import ast
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, '/repo')
sys.dont_write_bytecode = True
from tools.props import PROPS, NOT_APPLICABLE  # noqa: E402



class describe(object):
    def __init__(self, path):
        with open(path, encoding='utf8') as f:
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'Check':
                args = [ast.literal_eval(a) for a in n.args]
                kw = {k.arg: ast.literal_eval(k.value) for k in n.keywords}
                self.technique, self.level_note = args[1:3]
                self.assumptions = args[3] if len(args) > 3 else kw.get('assumptions', [])


lines = []
checks = []
for p in PROPS:
    files = p['files']
    for f in files:
        assert os.path.exists(os.path.join('/repo', f)), f
    assert len(p['title']) <= 80, p['title']
    lines.append(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['quant']},
        'why_tests_cant': p['why'],
        'anchors': {'files': files,
                    'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                    'observe_at': p['observe'], 'hook_needed': None}}, ensure_ascii=False))
    if p['id'] in NOT_APPLICABLE:
        continue
    c = describe(os.path.join(V, 'checks', p['id'].lower() + '.py'))
    note = c.level_note
    if c.assumptions:
        note += ' Assumes: ' + '; '.join(c.assumptions) + '.'
    checks.append({'property': p['id'], 'quick_cmd': './check %s quick' % p['id'],
                   'thorough_cmd': './check %s thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': 'model checking: ' + c.technique,
                   'level': 'model_checking', 'level_note': note})
with open(os.path.join(V, 'properties.jsonl'), 'w', encoding='utf8') as f:
    f.write('\n'.join(lines) + '\n')
with open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf8') as f:
    json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -m vp.build', 'checks': checks,
               'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NOT_APPLICABLE.items())]},
              f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(lines), 'properties', len(checks), 'checks')
