"""Seams through which the explorer owns the nondeterminism of the code under test.

Import this module and call install() *before* fog is imported:
* multiprocessing.Pool is replaced with an in-process stand-in which serialises every payload and result like a
  real pool does and which lets the explorer decide in which order unordered results come back, and whether the
  pool reads its task iterator eagerly or lazily;
* random.Random (and the module-level random.sample etc.) is replaced with a generator whose every draw below a
  bound is a choice of the explorer.
"""
import itertools
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import pickle
import random as _random

REAL_POOL_CLASS = multiprocessing.pool.Pool
REAL_RANDOM = _random.Random


class Divergence(RuntimeError):
    pass


class Horizon(Exception):
    """The execution made more choices than the stated horizon."""


class Chooser(object):
    """One execution: replays `prefix`, then takes choice 0 at every later point."""
    __slots__ = ('prefix', 'trace', 'horizon', 'default')

    def __init__(self, prefix=(), horizon=None, default=None):
        self.prefix = prefix
        self.trace = []
        self.horizon = horizon
        self.default = default

    def choose(self, n):
        if n <= 1:
            return 0
        i = len(self.trace)
        if self.horizon is not None and i >= self.horizon:
            raise Horizon()
        if i < len(self.prefix):
            c, m = self.prefix[i]
            if m != n:
                raise Divergence('replay diverged: %d alternatives instead of %d' % (n, m))
        else:
            c = 0 if self.default is None else self.default(i, n)
        self.trace.append((c, n))
        return c


def executions(run, horizon=None, limit=None):
    """Depth-first enumeration of every choice sequence. `run(chooser)` performs one execution."""
    prefix = []
    count = 0
    while True:
        ch = Chooser(prefix, horizon)
        run(ch)
        count += 1
        t = ch.trace
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return count
        c, n = t.pop()
        prefix = t + [(c + 1, n)]
        if limit is not None and count >= limit:
            return -count


def fair(i, n):
    """A default choice that keeps changing, so that "draw until it helps" loops end: fixed, not random."""
    return ((i + 1) * 2654435761 >> 9) % n


def first_choices(run, depth, default=fair):
    """Every combination of the first `depth` choices; later choices follow `default`."""
    prefix = []
    count = 0
    while True:
        ch = Chooser(prefix, None, lambda i, n: 0 if i < depth else default(i, n))
        run(ch)
        count += 1
        t = ch.trace[:depth]
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return count
        c, n = t.pop()
        prefix = t + [(c + 1, n)]


def deviations(run, bound, default=None):
    """Every execution with at most `bound` departures from the default choice (iterated bound: the runs with
    fewer departures come first)."""
    count = 0
    frontier = [[]]
    for depth in range(bound + 1):
        nxt = []
        for prefix in frontier:
            ch = Chooser(prefix, None, default)
            run(ch)
            count += 1
            if depth < bound:
                t = ch.trace
                for i in range(len(prefix), len(t)):
                    for c in range(t[i][1]):
                        if c != t[i][0]:
                            nxt.append(t[:i] + [(c, t[i][1])])
        frontier = nxt
    return count


# ------------------------------------------------------------------------------------------------ the pool

class PoolControl(object):
    """mode: 'real' (a genuine pool), or 'model' with `order` (function of the number of results giving the
    order in which imap_unordered delivers them) and `eager` (the task iterator is read ahead)."""
    mode = 'model'
    order = None
    eager = True
    pools = 0
    tasks = 0
    last_tasks = 0


CONTROL = PoolControl()


def _roundtrip(x):
    return pickle.loads(pickle.dumps(x, protocol=pickle.HIGHEST_PROTOCOL))


class _Async(object):
    def __init__(self, f):
        try:
            self._v, self._e = f(), None
        except Exception as e:
            self._v, self._e = None, e

    def get(self, timeout=None):
        if self._e is not None:
            raise self._e
        return self._v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self._e is None


class ModelPool(object):
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is not None and processes < 1:
            raise ValueError('Number of processes must be at least 1')
        CONTROL.pools += 1
        self._closed = False
        if initializer is not None:
            _roundtrip(initializer)(*_roundtrip(initargs))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def close(self):
        self._closed = True

    def terminate(self):
        self._closed = True

    def join(self):
        pass

    def _call(self, func, args, kwds=None):
        if self._closed:
            raise ValueError('Pool not running')
        CONTROL.tasks += 1
        func, args, kwds = _roundtrip((func, args, kwds or {}))
        return _roundtrip(func(*args, **kwds))

    def _tasks(self, func, iterable):
        if CONTROL.eager:
            items = [_roundtrip((func, x)) for x in iterable]
            for f, x in items:
                yield self._call(f, (x,))
        else:
            for x in iterable:
                yield self._call(func, (x,))

    def imap(self, func, iterable, chunksize=1):
        return self._tasks(func, iterable)

    def imap_unordered(self, func, iterable, chunksize=1):
        if CONTROL.order is None:
            yield from self._tasks(func, iterable)
            return
        results = list(self._tasks(func, iterable))
        CONTROL.last_tasks = len(results)
        for i in CONTROL.order(len(results)):
            yield results[i]

    def map(self, func, iterable, chunksize=None):
        return list(self._tasks(func, list(iterable)))

    def starmap(self, func, iterable, chunksize=None):
        return [self._call(func, tuple(x)) for x in list(iterable)]

    def apply(self, func, args=(), kwds=None):
        return self._call(func, args, kwds)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        r = _Async(lambda: self.map(func, iterable))
        if callback and r.successful():
            callback(r.get())
        return r

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        r = _Async(lambda: self.starmap(func, iterable))
        if callback and r.successful():
            callback(r.get())
        return r

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        r = _Async(lambda: self._call(func, args, kwds))
        if callback and r.successful():
            callback(r.get())
        return r


def pool_factory(*args, **kwargs):
    if CONTROL.mode == 'real':
        CONTROL.pools += 1
        kwargs.setdefault('context', multiprocessing.get_context())
        return REAL_POOL_CLASS(*args, **kwargs)
    return ModelPool(*args, **kwargs)


class _Switch(type):
    def __call__(cls, *args, **kwargs):
        return pool_factory(*args, **kwargs)

    def __getattr__(cls, name):
        return getattr(REAL_POOL_CLASS, name)


class PoolName(metaclass=_Switch):
    """What multiprocessing.pool.Pool names: the real class refers to itself by this name, too."""


# ---------------------------------------------------------------------------------------------- randomness

class RandomControl(object):
    chooser = None     # None: a genuine generator
    draws = 0
    repeats = None     # how many draws per execution may repeat the draw just before them (None: any number);
    last = None        # "draw again until different" loops are memoryless, so longer runs of equal draws add nothing

    def start(self, chooser, repeats=None):
        self.chooser, self.repeats, self.last = chooser, repeats, None

    def stop(self):
        self.chooser = None

    def draw(self, n):
        self.draws += 1
        if self.repeats is not None and self.repeats <= 0 and self.last is not None and self.last[1] == n and n > 1:
            c = self.chooser.choose(n - 1)
            if c >= self.last[0]:
                c += 1
        else:
            c = self.chooser.choose(n)
            if self.last == (c, n) and self.repeats is not None:
                self.repeats -= 1
        self.last = (c, n)
        return c


RCONTROL = RandomControl()


class EnumRandom(REAL_RANDOM):
    """random.Random whose draws are decided by the explorer. Every method of the standard class which needs an
    integer below a bound goes through _randbelow; floats are drawn from a menu of three values."""
    MENU = (0.0, 0.5, 0.9999999)

    def __new__(cls, *a, **k):
        # random.Random.__init_subclass__ and __new__ only accept hashable seeds
        return REAL_RANDOM.__new__(cls)

    def _randbelow(self, n):
        if RCONTROL.chooser is None:
            return REAL_RANDOM._randbelow_with_getrandbits(self, n)
        return RCONTROL.draw(n)

    _randbelow_with_getrandbits = REAL_RANDOM._randbelow_with_getrandbits

    def random(self):
        if RCONTROL.chooser is None:
            return REAL_RANDOM.random(self)
        RCONTROL.draws += 1
        return self.MENU[RCONTROL.chooser.choose(len(self.MENU))]


def _module_level(name):
    real = getattr(_random, name)

    def f(*a, **k):
        if RCONTROL.chooser is None:
            return real(*a, **k)
        return getattr(EnumRandom(0), name)(*a, **k)
    f.__name__ = name
    return f


def install(pool=True, rng=False):
    import sys
    assert not any(m == 'fog' or m.startswith('fog.') for m in sys.modules), 'install() must come before fog'
    if pool:
        multiprocessing.Pool = pool_factory
        multiprocessing.pool.Pool = PoolName
        multiprocessing.context.BaseContext.Pool = lambda self, *a, **k: pool_factory(*a, **k)
    if rng:
        _random.Random = EnumRandom
        for name in ('sample', 'choice', 'randint', 'randrange', 'shuffle', 'random'):
            setattr(_random, name, _module_level(name))
