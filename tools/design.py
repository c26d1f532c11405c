#!/opt/venv/bin/python
"""DESIGN.md = tools/design_head.md + per property table (from the checks) + tools/design_tail.md"""
import ast, os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.props import PROPS
out = [open(os.path.join(V, 'tools/design_head.md'), encoding='utf8').read().rstrip(), '', '## Properties', '']
for p in PROPS:
    path = os.path.join(V, 'checks', p['id'].lower() + '.py')
    out.append('### %s — %s' % (p['id'], p['title']))
    out.append('')
    if not os.path.exists(path):
        continue
    tree = ast.parse(open(path, encoding='utf8').read())
    fams = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'Check':
            args = [ast.literal_eval(a) for a in n.args]
        if isinstance(n, ast.Call) and getattr(n.func, 'attr', '') == 'family':
            b = n.args[2] if len(n.args) > 2 else [k.value for k in n.keywords if k.arg == 'bound'][0]
            try:
                b = ast.literal_eval(b)
            except Exception:
                b = None
            try:
                nm = ast.literal_eval(n.args[0])
            except Exception:
                nm = ast.unparse(n.args[0])
            fams.append((nm, b))
    out.append('*Decided by* %s. %s' % (args[1], args[2]))
    out.append('')
    out.append('*Why tests cannot*: %s' % p['why'])
    out.append('')
    if len(args) > 3 and args[3]:
        out.append('*Assumptions*: %s.' % '; '.join(args[3]))
        out.append('')
    for nm, b in fams:
        out.append('- **%s**%s' % (nm, ': ' + b if b else ''))
    out.append('')
out.append(open(os.path.join(V, 'tools/design_tail.md'), encoding='utf8').read())
out.append('| seed | caught by | needs |')
out.append('|---|---|---|')
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    with open(os.path.join(V, 'seeded', d, 'meta.json')) as f:
        m = json.load(f)
    out.append('| %s | %s | %s |' % (d, m['property'], m['needs']))
out.append('')
open(os.path.join(V, 'DESIGN.md'), 'w', encoding='utf8').write('\n'.join(out))
