"""Build the Cython extension of /repo's *current working tree* outside /repo.

The sources are copied to a scratch folder, translated with cython, compiled, and the resulting package
`cfog` is stored under /verif/.cache/<key>/, where <key> is a hash of every file that goes into the build.
A changed source therefore never meets an old binary. Nothing is written in /repo.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')


def _sources():
    out = []
    for top in ('cfog',):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x != '__pycache__')
            for f in sorted(fs):
                if f.endswith(('.so', '.c', '.pyc', '.o')):
                    continue
                out.append(os.path.join(d, f))
    return out


def build(flavour='plain', extra_cflags=(), extra_ldflags=(), extra_sources=()):
    """Return a directory to put on sys.path, which holds a freshly built `cfog`."""
    h = hashlib.sha256()
    h.update(repr((flavour, list(extra_cflags), list(extra_ldflags), sys.version, REPO)).encode())
    for p in _sources() + list(extra_sources):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    dest = os.path.join(CACHE, 'ext-%s-%s' % (flavour, h.hexdigest()[:24]))
    if os.path.isdir(dest):
        return dest
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='build-', dir=CACHE)
    try:
        for p in _sources():
            rel = os.path.relpath(p, REPO)
            os.makedirs(os.path.join(tmp, os.path.dirname(rel)), exist_ok=True)
            shutil.copyfile(p, os.path.join(tmp, rel))
        inc = sysconfig.get_paths()['include']
        suffix = sysconfig.get_config_var('EXT_SUFFIX')
        for pyx in glob.glob(os.path.join(tmp, 'cfog', '**', '*.pyx'), recursive=True):
            base = pyx[:-4]
            _run([sys.executable, '-m', 'cython', os.path.relpath(pyx, tmp)], tmp)
            cmd = ['gcc', '-shared', '-fPIC', '-O2', '-w', '-fwrapv', '-DNDEBUG', '-I', inc,
                   *extra_cflags, base + '.c', *extra_sources, '-o', base + suffix, *extra_ldflags]
            _run(cmd, tmp)
            os.remove(base + '.c')
        try:
            os.rename(tmp, dest)
        except OSError:
            if not os.path.isdir(dest):
                raise
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return dest


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(r.stdout.decode('utf8', 'replace'))
        raise SystemExit('build failed: %s' % ' '.join(cmd))


if __name__ == '__main__':
    print(build())
