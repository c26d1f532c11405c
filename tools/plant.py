#!/opt/venv/bin/python
"""plant.py NEW  : read tools-external spec file of seeds (python), write /verif/seeded/<id>/, confirm them.

Usage: plant.py SPEC.py [ID...]   (SPEC.py defines SEEDS: list of dicts id, property, file, edits [(old, new)], demo, needs, breaks)
Every seed is built, tested and demonstrated on a scratch copy bind... the tests only run on /repo, so the patch is
applied there, and undone straight afterwards.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

V = '/verif'


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def write(seed):
    d = os.path.join(V, 'seeded', seed['id'])
    os.makedirs(d, exist_ok=True)
    tmp = '/tmp/plant-copy'
    shutil.rmtree(tmp, ignore_errors=True)
    sh(['git', 'clone', '-q', '/repo', tmp])
    files = seed['file'] if isinstance(seed['file'], dict) else {seed['file']: seed['edits']}
    for f, edits in files.items():
        p = os.path.join(tmp, f)
        with open(p, encoding='utf8') as fh:
            s = fh.read()
        for old, new in edits:
            assert s.count(old) == 1, (seed['id'], f, s.count(old), old)
            s = s.replace(old, new)
        with open(p, 'w', encoding='utf8') as fh:
            fh.write(s)
    diff = sh(['git', '-C', tmp, 'diff']).stdout
    shutil.rmtree(tmp, ignore_errors=True)
    with open(os.path.join(d, 'patch.diff'), 'w', encoding='utf8') as fh:
        fh.write(diff)
    with open(os.path.join(d, 'demo.py'), 'w', encoding='utf8') as fh:
        fh.write(seed['demo'].lstrip('\n'))
    with open(os.path.join(d, 'demo.sh'), 'w') as fh:
        fh.write('#!/bin/bash\n# cwd: /repo, after build.sh\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                 'exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    with open(os.path.join(d, 'meta.json'), 'w', encoding='utf8') as fh:
        json.dump({'property': seed['property'], 'needs': seed['needs'], 'what_it_breaks': seed['breaks']}, fh, indent=1)
        fh.write('\n')
    return d


def confirm(i):
    d = os.path.join(V, 'seeded', i)
    with open(os.path.join(d, 'meta.json')) as f:
        prop = json.load(f)['property']
    res = {'id': i, 'property': prop}
    res['demo_clean'] = sh(['bash', os.path.join(d, 'demo.sh')], cwd='/repo').returncode
    r = sh(['git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff')])
    assert r.returncode == 0, r.stdout
    try:
        res['build'] = sh(['bash', '/opt/vp/build.sh']).returncode
        sh(['bash', '/opt/vp/test.sh', '/tmp/plant-out.json'])
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed = set(json.load(open('/tmp/plant-out.json'))['passed'])
        res['tests_lost'] = [t for t in base if t not in passed]
        r = sh(['bash', os.path.join(d, 'demo.sh')], cwd='/repo')
        res['demo_bug'] = r.returncode
        res['demo_out'] = r.stdout[-300:]
        r = sh([os.path.join(V, 'check'), prop, 'quick'], cwd=V)
        res['check'] = r.returncode
        res['out'] = r.stdout[-700:]
    finally:
        sh(['git', '-C', '/repo', 'checkout', '--', '.'])
        sh(['bash', '/opt/vp/build.sh'])
    # some lines of the original repository must change
    base = sh(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD']).stdout.split()[0]
    removed, cur = [], None
    for l in open(os.path.join(d, 'patch.diff'), encoding='utf8'):
        if l.startswith('--- a/'):
            cur = set(sh(['git', '-C', '/repo', 'show', '%s:%s' % (base, l[6:].strip())]).stdout.splitlines())
        elif l.startswith('-'):
            removed.append(l[1:].rstrip('\n') in cur)
    res['original'] = bool(removed) and all(removed)
    ok = res['original'] and res['demo_clean'] == 0 and res['build'] == 0 and not res['tests_lost'] and res['demo_bug'] != 0
    res['counts'] = ok
    res['caught'] = res['check'] == 1 and ('VIOLATION property=%s' % prop) in res['out']
    return res


if __name__ == '__main__':
    if sys.argv[1].endswith('.py'):
        seeds = [s for s in runpy.run_path(sys.argv[1])['SEEDS'] if len(sys.argv) == 2 or s['id'] in sys.argv[2:]]
        ids = []
        for s in seeds:
            write(s)
            ids.append(s['id'])
    else:
        ids = sorted(os.listdir(os.path.join(V, 'seeded'))) if sys.argv[1] == 'all' else sys.argv[1:]
    bad = 0
    for i in ids:
        r = confirm(i)
        print('%-28s %s counts=%s caught=%s' % (i, r['property'], r['counts'], r['caught']), flush=True)
        if not r['counts'] or not r['caught']:
            bad = 1
            print(json.dumps(r, indent=1), flush=True)
    sys.exit(bad)
