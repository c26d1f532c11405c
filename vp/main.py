import argparse
import importlib
import os
import shutil
import subprocess
import sys
import tempfile

NEEDS_EXT = {'C01', 'C02', 'C03', 'C04'}


def asan_env():
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, check=True,
                         universal_newlines=True).stdout.strip()
    e = dict(os.environ)
    e.update(LD_PRELOAD=os.path.realpath(lib), PYTHONMALLOC='malloc', VP_MEM='0', VP_ASAN='1',
             ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1:abort_on_error=0:'
                          'handle_segv=1:log_path=/dev/null:detect_stack_use_after_return=0')
    return e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--family')
    ap.add_argument('--replay')
    ap.add_argument('--procs', type=int)
    a = ap.parse_args()
    os.environ['VERIF_TIER'] = a.tier
    from vp import build, core
    if a.property == 'C04' and not os.environ.get('VP_ASAN'):
        os.execve(sys.executable, [sys.executable, '-X', 'utf8', '-m', 'vp.main'] + sys.argv[1:], asan_env())
    scratch = tempfile.mkdtemp(prefix='vp-%s-' % a.property)
    rc = 2
    try:
        # never read or write byte code next to the sources
        sys.pycache_prefix = os.path.join(scratch, 'pyc')
        os.environ['VP_SCRATCH'] = scratch
        os.environ['PYTHONPYCACHEPREFIX'] = sys.pycache_prefix
        sys.path.insert(0, build.REPO)
        if a.property in NEEDS_EXT:
            pre = os.environ.pop('LD_PRELOAD', None)   # not for the compilers
            if a.property == 'C04':
                names = ['malloc', 'calloc', 'realloc', 'free']
                for fam in ('PyMem_', 'PyMem_Raw', 'PyObject_'):
                    names += [fam + x for x in ('Malloc', 'Calloc', 'Realloc', 'Free')]
                path = build.build('asan', ['-fsanitize=address', '-g', '-fno-omit-frame-pointer', '-O1'],
                                   ['-fsanitize=address', '-Wl,' + ','.join('--wrap=' + n for n in names)],
                                   [os.path.join(build.VERIF, 'vp', 'alloc_shim.c')])
            else:
                path = build.build()
            sys.path.insert(0, path)
            import cfog
            assert cfog.__file__.startswith(build.CACHE), cfog.__file__
        mod = importlib.import_module('checks.%s' % a.property.lower())
        if a.property not in NEEDS_EXT:
            import fog
            assert os.path.realpath(fog.__file__).startswith(os.path.realpath(build.REPO) + '/'), fog.__file__
        if a.replay:
            rc = core.replay(mod.check, a.replay)
        else:
            rc = core.run(mod.check, a.tier, a.family, a.procs)
    finally:
        sys.stdout.flush()
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


main()
