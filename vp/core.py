"""Exhaustive bounded exploration of the real code, in parallel, with crash and hang detection.

A check is a list of *families*. A family is a list of *units* (simplest first) and a function
`explore(unit, cx)` which enumerates every case of that unit, runs the real code on it, and compares what it
observed with a reference model. `cx.at(case)` is called before each case: its ordinal is published in
shared memory, so that when the code under test kills the interpreter or never returns, the parent knows
which case did it, and can name it by re-running the same unit deterministically up to that ordinal.
"""
import collections
import hashlib
import itertools
import json
import mmap
import os
import pickle
import resource
import signal
import struct
import sys
import time
import traceback

from vp.build import VERIF

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')

CPU_LIMIT = float(os.environ.get('VP_CASE_CPU', '20'))     # CPU seconds one case may burn
WALL_LIMIT = float(os.environ.get('VP_CASE_WALL', '300'))  # wall seconds one case may take (deadlocks)
MEM_LIMIT = int(os.environ.get('VP_MEM', str(6 << 30)))    # address space of one worker


class Violation(Exception):
    def __init__(self, message, key=None):
        Exception.__init__(self, message)
        self.message = message
        self.key = key


class _Stop(BaseException):
    pass


class Context(object):
    __slots__ = ('current', 'n', 'calls', 'checked', 'outcomes', 'samples', 'tier', 'known', 'known_hit',
                 '_mem', '_slot', '_stop_at', '_sample_every')

    def __init__(self, tier, known=(), mem=None, slot=0, stop_at=None):
        self.tier = tier
        self.current = None
        self.n = 0            # cases in the current unit
        self.calls = 0        # calls of the code under test
        self.checked = 0      # comparisons of an observation with the reference model
        self.outcomes = {}    # digest of distinct observed outcomes (capped)
        self.samples = []
        self.known = set(known)
        self.known_hit = set()
        self._mem = mem
        self._slot = slot
        self._stop_at = stop_at

    def at(self, case, calls=1):
        """Announce a case: it is about to be run on the real code with `calls` calls."""
        self.current = case
        self.n += 1
        self.calls += calls
        if self._mem is not None:
            self._mem[self._slot + 1] = self.n
        if self._stop_at is not None and self.n == self._stop_at:
            raise _Stop()

    def expect(self, ok, message='', key=None):
        self.checked += 1
        if not ok:
            if callable(message):
                message = message()
            self.fail(message, key)

    def same(self, got, want, what='', key=None):
        self.checked += 1
        if got != want:
            self.fail('%s: got %s, expected %s' % (what, short(got), short(want)), key)

    def fail(self, message, key=None):
        if key is not None and key in self.known:
            self.known_hit.add(key)
            return
        raise Violation(message, key)

    def outcome(self, o):
        if len(self.outcomes) < 20000:
            self.outcomes[hash(o)] = 1


def short(x, n=600):
    r = repr(x)
    return r if len(r) <= n else r[:n] + '... (%d chars)' % len(r)


class Family(object):
    def __init__(self, name, units, explore, bound):
        self.name = name
        self.units = units
        self.explore = explore
        self.bound = bound


class Check(object):
    def __init__(self, pid, technique, level_note, assumptions=()):
        self.pid = pid
        self.technique = technique
        self.level_note = level_note
        self.assumptions = list(assumptions)
        self.families = []

    def family(self, name, units, bound=''):
        """Decorator. `units` is a function of the tier; `bound` a text or a function of the tier."""
        def deco(fn):
            self.families.append(Family(name, units, fn, bound))
            return fn
        return deco


# ------------------------------------------------------------------------------------------------------

def _load_known(pid):
    """Lines "known: property=<id> key=<key> <what>" suppress exactly the case with that key;
    lines "fixed: ..." are a record and suppress nothing."""
    keys = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        with open(p, encoding='utf8') as f:
            for line in f:
                if line.startswith('known: property=%s ' % pid):
                    rest = line[len('known: property=%s ' % pid):].strip()
                    k, _, what = rest.partition(' ')
                    assert k.startswith('key=')
                    keys[k[4:]] = what
    return keys


def _unit_in_context(fam, unit, cx):
    try:
        fam.explore(unit, cx)
    except _Stop:
        raise
    except Violation as e:
        return {'kind': 'violation', 'message': e.message, 'case': short(cx.current, 4000), 'n': cx.n}
    except RecursionError as e:
        return {'kind': 'exception', 'message': 'RecursionError %s' % e, 'case': short(cx.current, 4000), 'n': cx.n}
    except (Exception, SystemExit) as e:
        return {'kind': 'exception',
                'message': 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:]),
                'case': short(cx.current, 4000), 'n': cx.n}
    return None


def _worker(check, jobs, counter, lock, mem, slot, tier, known, conn, seed):
    import random
    random.seed(seed)
    if MEM_LIMIT:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)  # code under test may print
    try:
        while True:
            with lock:
                j = counter[0]
                counter[0] = j + 1
            if j >= len(jobs):
                break
            fi, ui = jobs[j]
            fam = check.families[fi]
            mem[slot + 1] = 0
            mem[slot] = j + 1
            cx = Context(tier, known, mem, slot)
            t0 = time.time()
            bad = _unit_in_context(fam, fam._units[ui], cx)
            res = {'job': j, 'cases': cx.n, 'calls': cx.calls, 'checked': cx.checked,
                   'outcomes': list(cx.outcomes)[:20000], 'sample': short(cx.current, 400),
                   'known': sorted(cx.known_hit), 'bad': bad, 't': time.time() - t0}
            conn.send(res)
        mem[slot] = 0
        conn.send(None)
    finally:
        conn.close()
    os._exit(0)


def _cpu(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            parts = f.read().rsplit(')', 1)[1].split()
        return (int(parts[11]) + int(parts[12])) / os.sysconf('SC_CLK_TCK')
    except OSError:
        return None


def locate(check, job, n, tier):
    """Name case `n` of a job by re-running it (in a child) and stopping just before that case."""
    fi, ui = job
    fam = check.families[fi]
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        cx = Context(tier, _load_known(check.pid), stop_at=n)
        try:
            fam.explore(fam._units[ui], cx)
        except BaseException:
            pass
        os.write(w, short(cx.current, 4000).encode('utf8', 'backslashreplace')[:60000])
        os._exit(0)
    os.close(w)
    import select
    buf = b''
    ready, _, _ = select.select([r], [], [], 120)
    if ready:
        while True:
            d = os.read(r, 65536)
            if not d:
                break
            buf += d
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    os.close(r)
    return buf.decode('utf8') or '(case %d of this unit; could not be named)' % n


def run(check, tier=None, only=None, procs=None):
    import multiprocessing as mp
    tier = tier or TIER
    t_start = time.time()
    known = _load_known(check.pid)
    jobs = []
    for fi, fam in enumerate(check.families):
        fam._units = list(fam.units(tier))
        if only and only not in fam.name:
            continue
        for ui in range(len(fam._units)):
            jobs.append((fi, ui))
    nproc = procs or int(os.environ.get('VP_PROCS', '0')) or min(8, os.cpu_count() or 4)
    # shared memory: [job+1, case ordinal] per worker
    mm = mmap.mmap(-1, 16 * nproc)
    mem = memoryview(mm).cast('q')
    ctx = mp.get_context('fork')
    counter = memoryview(mmap.mmap(-1, 8)).cast('q')
    lock = ctx.Lock()

    workers = {}

    def start(slot):
        import gc
        r, w = ctx.Pipe(False)
        gc.freeze()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            r.close()
            for o in workers.values():
                o['conn'].close()
            try:
                _worker(check, jobs, counter, lock, mem, 2 * slot, tier, known, w, SEED)
            except BaseException:
                traceback.print_exc()
                os._exit(3)
        w.close()
        workers[slot] = {'pid': pid, 'conn': r, 'last': (0, 0), 'cpu': 0.0, 'wall': time.time(), 'done': False}

    for s in range(nproc):
        start(s)

    results = []
    bads = []
    harness_error = None
    famstat = {}
    from multiprocessing.connection import wait
    deadline_after_bad = None
    live = set(workers)
    while live:
        conns = {workers[s]['conn']: s for s in live}
        for c in wait(list(conns), timeout=0.5):
            s = conns[c]
            wk = workers[s]
            try:
                m = c.recv()
            except (EOFError, OSError):
                # the worker died
                _, status = os.waitpid(wk['pid'], 0)
                live.discard(s)
                j, n = mem[2 * s], mem[2 * s + 1]
                if j > 0 and not wk['done'] and (os.WIFSIGNALED(status) or os.WEXITSTATUS(status) != 3):
                    why = ('signal %d' % os.WTERMSIG(status)) if os.WIFSIGNALED(status) else (
                        'exit code %d' % os.WEXITSTATUS(status))
                    bads.append({'job': j - 1, 'kind': 'crash', 'n': n,
                                 'message': 'the code under test killed the interpreter (%s)' % why})
                elif not wk['done']:
                    harness_error = 'worker %d died with status %d' % (s, status)
                continue
            if m is None:
                wk['done'] = True
                live.discard(s)
                os.waitpid(wk['pid'], 0)
                continue
            results.append(m)
            if m['bad']:
                b = dict(m['bad'])
                b['job'] = m['job']
                bads.append(b)
        now = time.time()
        for s in list(live):
            wk = workers[s]
            cur = (mem[2 * s], mem[2 * s + 1])
            cpu = _cpu(wk['pid'])
            if cur != wk['last']:
                wk['last'], wk['cpu'], wk['wall'] = cur, cpu, now
            elif cur[0] and cpu is not None and (
                    cpu - (wk['cpu'] or 0) > CPU_LIMIT or now - wk['wall'] > WALL_LIMIT):
                os.kill(wk['pid'], signal.SIGKILL)
                os.waitpid(wk['pid'], 0)
                live.discard(s)
                bads.append({'job': cur[0] - 1, 'kind': 'hang', 'n': cur[1],
                             'message': 'the code under test did not return within %.0f s of CPU time'
                                        % CPU_LIMIT})
        if bads and deadline_after_bad is None:
            deadline_after_bad = now + 2.0
        if harness_error or (deadline_after_bad and now > deadline_after_bad):
            for s in list(live):
                os.kill(workers[s]['pid'], signal.SIGKILL)
                os.waitpid(workers[s]['pid'], 0)
                live.discard(s)

    if harness_error:
        sys.stderr.write('harness error: %s\n' % harness_error)
        return 2

    outcomes = {}
    known_hit = set()
    tot = collections.Counter()
    samples = []
    slow = []
    for m in results:
        fam = check.families[jobs[m['job']][0]]
        st = famstat.setdefault(fam.name, collections.Counter())
        st['units'] += 1
        st['cases'] += m['cases']
        st['calls'] += m['calls']
        st['comparisons'] += m['checked']
        tot['cases'] += m['cases']
        tot['calls'] += m['calls']
        tot['checked'] += m['checked']
        outcomes.setdefault(fam.name, set()).update(m['outcomes'])
        known_hit.update(m['known'])
        slow.append((m['t'], fam.name, jobs[m['job']][1]))
    seen_f = set()
    for m in sorted(results, key=lambda m: m['job']):
        fam = check.families[jobs[m['job']][0]]
        if fam.name not in seen_f and m['cases']:
            seen_f.add(fam.name)
            samples.append({'family': fam.name, 'case': m['sample']})
    wall = time.time() - t_start
    # vacuity: every family must have produced cases and comparisons
    if not bads:
        for fi, fam in enumerate(check.families):
            if only and only not in fam.name:
                continue
            st = famstat.get(fam.name)
            if not st or not st['cases'] or not st['comparisons']:
                sys.stderr.write('harness error: family %r of %s explored nothing\n' % (fam.name, check.pid))
                return 2

    violations = 0
    replay = None
    if bads:
        bads.sort(key=lambda b: (b['job'], b['n']))
        b = bads[0]
        fi, ui = jobs[b['job']]
        fam = check.families[fi]
        if 'case' not in b:
            b['case'] = locate(check, (fi, ui), b['n'], tier)
        violations = len(bads)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        digest = hashlib.sha256(repr((fam.name, ui, b['n'])).encode()).hexdigest()[:10]
        replay = os.path.join(VERIF, 'replays', '%s-%s.json' % (check.pid, digest))
        with open(replay, 'w', encoding='utf8', errors='backslashreplace') as f:
            json.dump({'property': check.pid, 'tier': tier, 'seed': SEED, 'family': fam.name, 'unit': ui,
                       'unit_repr': short(fam._units[ui], 2000), 'case_number': b['n'], 'case': b['case'],
                       'kind': b['kind'], 'message': b['message'],
                       'replay_cmd': 'cd /verif && ./check %s --replay %s' % (check.pid, replay)},
                      f, indent=1)
    write_evidence(check, tier, {
        'states': tot['cases'],
        'transitions': tot['calls'],
        'traces_validated_against_impl': tot['checked'],
        'exhaustive': not bads,
        'distinct_outcomes': {k: len(v) for k, v in outcomes.items() if v},
        'families': [{'name': fam.name,
                      'bound': fam.bound(tier) if callable(fam.bound) else fam.bound,
                      'units': famstat.get(fam.name, {}).get('units', 0),
                      'cases': famstat.get(fam.name, {}).get('cases', 0),
                      'calls': famstat.get(fam.name, {}).get('calls', 0),
                      'comparisons': famstat.get(fam.name, {}).get('comparisons', 0)}
                     for fam in check.families],
        'counting': 'states: enumerated cases (one per input, configuration, schedule or history); '
                    'transitions: calls of the code under test made on them; traces_validated_against_impl: '
                    'comparisons of an observation on the real code with the reference model',
        'samples': samples,
        'known_findings_hit': sorted(known_hit),
    }, wall, violations)
    for k in sorted(known_hit):
        print('KNOWN-FINDING: property=%s %s' % (check.pid, known.get(k, k)))
    if os.environ.get('VP_VERBOSE'):
        for fam in check.families:
            print(fam.name, dict(famstat.get(fam.name, {})), 'outcomes', len(outcomes.get(fam.name, ())))
        slow.sort(reverse=True)
        print('slowest units', slow[:5])
    print('%s %s: states=%d transitions=%d comparisons=%d wall=%.1fs violations=%d' % (
        check.pid, tier, tot['cases'], tot['calls'], tot['checked'], wall, violations))
    if bads:
        b = bads[0]
        fam = check.families[jobs[b['job']][0]]
        print('family: %s' % fam.name)
        print(('case: %s' % b['case']).encode('ascii', 'backslashreplace').decode())
        print(('%s: %s' % (b['kind'], b['message'])).encode('ascii', 'backslashreplace').decode())
        print('VIOLATION property=%s replay=%s' % (check.pid, replay))
        return 1
    return 0


def replay(check, path):
    """Re-run the unit of a recorded violation, twice, up to and including its case, without the scheduler."""
    with open(path, encoding='utf8') as f:
        rec = json.load(f)
    seen = []
    for _ in range(2):
        for fam in check.families:
            if fam.name != rec['family']:
                continue
            fam._units = list(fam.units(rec['tier']))
            cx = Context(rec['tier'], _load_known(check.pid))
            bad = _unit_in_context(fam, fam._units[rec['unit']], cx)
            seen.append((bad or {}).get('n'))
            if bad:
                print('case %d: %s' % (bad['n'], bad['case']))
                print(bad['message'])
            else:
                print('no violation in this unit')
    if seen and seen[0] is not None and len(set(seen)) == 1:
        print('VIOLATION property=%s replay=%s' % (check.pid, path))
        return 1
    return 0 if seen and seen[0] is None and len(set(seen)) == 1 else 2


def write_evidence(check, tier, coverage, wall, violations):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', '%s.json' % check.pid)
    with open(p + '.tmp', 'w', encoding='utf8', errors='backslashreplace') as f:
        json.dump({'property': check.pid, 'tier': tier, 'seed': SEED, 'level': 'model_checking',
                   'coverage': coverage, 'assumptions': check.assumptions,
                   'wall_s': round(wall, 2), 'violations': violations}, f, indent=1)
    os.replace(p + '.tmp', p)


# ----------------------------------------------------------------------------------- enumeration helpers

def words(alphabet, lo, hi):
    """Every string over `alphabet` with lo <= length <= hi, shortest first."""
    for n in range(lo, hi + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield ''.join(t)


def tuples(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield t


def subsets(xs, lo=0, hi=None):
    xs = list(xs)
    for n in range(lo, (len(xs) if hi is None else hi) + 1):
        for t in itertools.combinations(xs, n):
            yield t


def chunks(xs, n):
    """Split a list into at most n interleaved units, so that each carries simple and complex cases."""
    xs = list(xs)
    return [xs[i::n] for i in range(min(n, len(xs)))]
