"""Evaluate an expression of a check module in a fresh process whose string hashes are seeded otherwise."""
import ast
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def elsewhere(module, expr, hashseed):
    repo = os.environ.get('VP_REPO', '/repo')
    code = 'import sys; sys.path.insert(0, %r); sys.path.insert(0, %r)\nfrom %s import *\nprint("@" + repr(%s))' % (HERE, repo, module, expr)
    e = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-X', 'utf8', '-c', code], cwd=HERE, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
    if p.returncode or not p.stdout.startswith('@'):
        return ('failed', p.stderr[-500:])
    return ast.literal_eval(p.stdout[1:])
