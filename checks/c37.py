import io
import re
import sys
import warnings
from collections import Counter

from vp import seams
from vp.core import Check
seams.install(pool=True)
from fog import clustering as C, evaluation as E, join as J, lsh as L, metrics as M, tokenizers as T
from fog.cli.__main__ import main
from fog.lsh import MinHash, LSBMinHash, SuperMinHash
from checks.lev_common import lev

check = Check(
    'C37', 'exhaustive fault injection into the real library: every kind of error at every call of every function given to it and at every element of every iterable',
    'Every call out of 64 which takes a function, an iterable or a stream: 9 kinds of errors raised by the i-th call of that function, the i-th element or the i-th line read or written, for every i that '
    'the call reaches (quick: for the larger ones a stride), sequentially and over a pool in every mode.',
    ['random algorithms are given a seed', 'StopIteration, which Python itself turns into another error, is not raised',
     'pools are modelled: stopping a genuine pool whose workers are busy is left to multiprocessing'])

warnings.simplefilter('ignore')
CONTROL = seams.CONTROL


class Refusal(Exception):
    pass


ERRORS = [Refusal, ValueError, TypeError, KeyError, IndexError, AttributeError, ZeroDivisionError, OSError, RuntimeError]

WORDS = ['abc', 'abd', 'bcd', 'xyz', 'xyy', 'q', 'bce']
SETS = [tuple(x) for x in ('abc', 'abcd', 'xy', 'xyz', 'bcd', 'q')]


def near(a, b):
    return 1.0 - lev(a, b) / max(len(a), len(b), 1)


def similar(a, b):
    return lev(a, b) <= 1


def first(w):
    return w[:1]


def chars(w):
    return list(w)


def same(x):
    return x


def last(w):
    return w[::-1]


# name: (function, data, positional functions and values, keywords). Every callable and the data are replaced by failing ones in turn.
CALLS = {}


def call(name, f, *args, **kw):
    CALLS[name] = (f, args, kw)


class Data(list):
    """Marks an argument which may be any iterable."""


W, S = Data(WORDS), Data(SETS)
for mode in ('connected_components', 'leader', 'fuzzy_clusters'):
    call('pairwise distance ' + mode, C.pairwise, W, mode=mode, distance=lev, radius=1)
    call('pairwise similarity ' + mode, C.pairwise, W, mode=mode, similarity=near, radius=0.6)
    call('pairwise boolean ' + mode, C.pairwise, W, mode=mode, similarity=similar)
    if mode != 'leader':
        call('pairwise key ' + mode, C.pairwise, W, mode=mode, similarity=similar, key=same)
for mode in ('connected_components', 'fuzzy_clusters'):
    for procs in (1, 2):
        p = {'processes': procs} if procs > 1 else {}
        n = ' %s %d' % (mode, procs)
        if procs > 1:
            call('pairwise' + n, C.pairwise, W, mode=mode, distance=lev, radius=1, key=same, chunk_size=3, **p)
        call('blocking' + n, C.blocking, W, block=first, distance=lev, radius=1, mode=mode, **p)
        call('blocking several' + n, C.blocking, W, blocks=chars, similarity=near, radius=0.6, mode=mode, **p)
        call('quickjoin' + n, C.quickjoin, W, 1, distance=lev, block_size=2, seed=3, mode=mode, **p)
        call('quickjoin tree' + n, C.quickjoin, W, 1, distance=lev, block_size=3, seed=3, vp_tree=True, mode=mode, **p)
    call('passjoin ' + mode, C.passjoin, W, 1, lev, mode=mode)
    call('intersection_index ' + mode, C.intersection_index, W, metric='overlap', radius=0.6, key=chars, mode=mode)
    call('sorted_neighborhood ' + mode, C.sorted_neighborhood, W, key=last, distance=lev, radius=1, window=3, mode=mode)
    call('sorted_neighborhood several ' + mode, C.sorted_neighborhood, W, keys=[same, last], similarity=similar, window=3, mode=mode)
    call('adaptive ' + mode, C.adaptive_sorted_neighborhood, W, key=same, distance=lev, radius=1, window=2, mode=mode)
    call('adaptive several ' + mode, C.adaptive_sorted_neighborhood, W, keys=[same, last], similarity=near, radius=0.6, window=2, mode=mode)
    call('nn_descent ' + mode, C.nn_descent, W, 1, distance=lev, seed=2, k=2, mode=mode)
    call('nn_descent_full ' + mode, C.nn_descent_full, W, 0.6, similarity=near, seed=2, k=2, mode=mode)
call('key_collision', C.key_collision, W, key=first)
call('key_collision merged', C.key_collision, W, keys=chars)
call('key_collision apart', C.key_collision, W, keys=chars, merge=False)
call('quickjoin similarity', C.quickjoin, Data(['abc', 'abd', 'bcd', 'xyz', 'xyt']), 0.4, similarity=M.jaccard_similarity, block_size=2, seed=1)
call('vp_tree', C.vp_tree, W, lev, 1)
call('ppjoin', C.ppjoin, W, 0.5, tokenizer=chars)
call('ppjoin_plus', C.ppjoin_plus, W, 0.5, tokenizer=chars, metric='dice')
call('all_pairs', C.all_pairs, S, 0.5, metric='binary_cosine')
call('all_pairs tokenizer', C.all_pairs, W, 0.5, tokenizer=chars)
call('minhash', C.minhash, W, h=16, bands=16, radius=0.3, seed=9, key=chars)
call('hashjoin', J.hashjoin, W, Data(['x', 'abe', 'q']), key=first)
call('hashjoin several', J.hashjoin, Data(['x', 'abe', 'q']), W, keys=chars)
call('best_matching', E.best_matching_macro_average, Data([['a', 'b'], ['c', 'd']]), Data([['a', 'c'], ['b', 'd']]))
call('labels_to_clusters', E.labels_to_clusters, {'a': 1, 'b': 2, 'c': 1})
call('clusters_to_labels', E.clusters_to_labels, Data([['a', 'b'], ['c']]), key=same)
call('simhash', L.simhash, Data(['a', 'b', 'c']))
call('MinHash', lambda x: MinHash(8, seed=1).create_signature(x), Data(['a', 'b', 'c']))
call('LSBMinHash', lambda x: LSBMinHash(1, seed=1).create_signature(x), Data(['a', 'b', 'c']))
call('SuperMinHash', lambda x: SuperMinHash(8).create_signature(x), Data(['a', 'b', 'c']))


class Faults(object):
    """Counts the calls of one function (or the elements of one iterable) and raises at the chosen one."""
    def __init__(self, at, error):
        self.at, self.error, self.n = at, error, 0

    def step(self):
        i = self.n
        self.n += 1
        if i == self.at:
            raise self.error('fault %d' % i)

    def function(self, f):
        def g(*a):
            self.step()
            return f(*a)
        return g

    def iterable(self, xs):
        for x in xs:
            self.step()
            yield x
        self.step()   # an error once everything was given


def sites(name):
    """The places of a call where a fault can be injected."""
    f, args, kw = CALLS[name]
    for i, a in enumerate(args):
        if isinstance(a, Data) and name not in ('best_matching', 'labels_to_clusters'):
            yield ('data', i)
        elif callable(a):
            yield ('arg', i)
    for k, a in kw.items():
        if callable(a):
            yield ('kw', k)
        elif isinstance(a, list) and a and callable(a[0]):
            for i in range(len(a)):
                yield ('kws', (k, i))


def frozen(x):
    return repr(sorted(map(repr, x))) if isinstance(x, (list, set)) else repr(x)


def perform(name, site, faults):
    """(results given, error raised)."""
    f, args, kw = CALLS[name]
    args = [list(a) if isinstance(a, Data) else a for a in args]
    kw = {k: list(v) if isinstance(v, list) else v for k, v in kw.items()}
    if site is not None:
        kind, where = site
        if kind == 'data':
            args[where] = faults.iterable(args[where])
        elif kind == 'arg':
            args[where] = faults.function(args[where])
        elif kind == 'kw':
            kw[where] = faults.function(kw[where])
        else:
            kw[where[0]][where[1]] = faults.function(kw[where[0]][where[1]])
    out = []
    try:
        r = f(*args, **kw)
        if hasattr(r, '__next__'):
            for x in r:
                out.append(frozen(x))
        else:
            out.append(frozen(r))
    except Exception as e:
        return out, e
    return out, None


@check.family('functions and iterables', lambda t: list(CALLS), 'every call, every function and iterable given to it, 9 kinds of errors at every call or element')
def functions(unit, cx):
    CONTROL.order = None
    cx.at((unit, 'no fault'))
    good, e = perform(unit, None, None)
    cx.expect(e is None, lambda: '%s: %r' % (unit, e))
    good = Counter(good)
    parallel = CALLS[unit][2].get('processes', 1) > 1
    for site in sites(unit):
        count = Faults(-1, None)
        cx.at((unit, site, 'counted'))
        out, e = perform(unit, site, count)
        cx.expect(e is None and Counter(out) == good, lambda: '%s, %s: %r %r' % (unit, site, e, out))
        # a pool runs copies of the function: their calls are counted per task
        away = parallel and not count.n
        total = 3 if away else count.n
        step = 1 if total <= 40 or cx.tier != 'quick' else total // 40 + 1
        for i in sorted(set(range(0, total, step)) | {max(0, total - 1)}):
            for error in ERRORS:
                cx.at((unit, site, error.__name__, i))
                faults = Faults(i, error)
                out, e = perform(unit, site, faults)
                cx.checked += 1
                if e is None and (i if away else faults.n <= i):
                    continue   # never reached: beyond the calls of every single task, or (vp_tree) other random vantage points
                if e is None:
                    cx.fail('%s: %s raised by the call or element %d of %s was swallowed; the call gave %r' % (unit, error.__name__, i, site, out))
                if type(e) is not error or e.args != ('fault %d' % i,):
                    cx.fail('%s: %s raised by the call or element %d of %s came out as %r' % (unit, error.__name__, i, site, e))
                if Counter(out) - good:
                    cx.fail('%s: before %s at %d of %s, wrong results were given: %r' % (unit, error.__name__, i, site, out))
                cx.outcomes[(unit, site[0], len(out))] = 1
        cx.at((unit, site, 'afterwards'))
        out, e = perform(unit, None, None)
        cx.expect(e is None and Counter(out) == good, lambda: '%s after failed ones: %r %r' % (unit, e, out))


class Stream(io.StringIO):
    """A text stream whose i-th line read or written fails."""
    def __init__(self, text, faults):
        super().__init__(text, newline='')
        self.faults = faults

    def __next__(self):
        self.faults.step()
        return super().__next__()

    def readline(self, *a):
        self.faults.step()
        return super().readline(*a)

    def read(self, *a):
        self.faults.step()
        return super().read(*a)

    def write(self, s):
        self.faults.step()
        return super().write(s)


COMMANDS = [['split', 'b'], ['split', 'b', '-t', 'n'], ['transform', 'b', 'upper,strip'], ['transform', 'b', 'len', '-t', 'n', '-a'], ['transform', 'b', 'value + "x"', '--eval'],
            ['cluster', 'b'], ['cluster', 'b', '-t', 'html']]
TEXT = 'a,b,c\r\n1,x|Y,2\r\n3,"y, X",4\r\n5,X y,6\r\n7,"l\nm",8\r\n9,,10\r\n'


def timeless(s):
    """Dates and durations of reports aside."""
    return re.sub(r'[\d.:T-]+', '0', s)


def command(args, text, rf, wf):
    argv, stdin, stdout = sys.argv, sys.stdin, sys.stdout
    out = Stream('', wf)
    sys.argv, sys.stdin, sys.stdout = ['fog'] + args, Stream(text, rf), out
    e = None
    try:
        main()
    except (Exception, SystemExit) as x:
        e = x
    finally:
        sys.argv, sys.stdin, sys.stdout = argv, stdin, stdout
    return out.getvalue(), e


@check.family('streams', lambda t: list(range(len(COMMANDS))), 'every command: the i-th line read or the i-th piece written fails, for every i: the command fails and what it wrote is a beginning of the output')
def streams(unit, cx):
    args = COMMANDS[unit]
    r, w = Faults(-1, None), Faults(-1, None)
    cx.at((args, 'no fault'))
    good, e = command(args, TEXT, r, w)
    cx.expect(e is None, lambda: '%s: %r' % (args, e))
    for side, total in (('read', r.n), ('written', w.n)):
        for i in range(total):
            for error in (OSError, BrokenPipeError, UnicodeDecodeError, ValueError):
                cx.at((args, side, i, error.__name__))
                make = (lambda m: UnicodeDecodeError('utf8', b'\xff', 0, 1, m)) if error is UnicodeDecodeError else error
                fs = Faults(i, make)
                out, e = command(args, TEXT, fs if side == 'read' else Faults(-1, None), fs if side == 'written' else Faults(-1, None))
                cx.checked += 1
                if e is None or isinstance(e, SystemExit) and not e.code:
                    cx.fail('fog %s: %s at piece %d %s was swallowed, output %r' % (' '.join(args), error.__name__, i, side, out))
                if not timeless(good).startswith(timeless(out)):
                    cx.fail('fog %s: %s at piece %d %s: wrote %r, not a beginning of %r' % (' '.join(args), error.__name__, i, side, out, good))


FAILURES = ['1 / 0', 'int("x")', '[][0]', '{}[0]', 'None.x', '1 + ""', 'undefined', '"\\ud800".encode()', 'open("/nonexistent/file")', '(_ for _ in ()).throw(RuntimeError("x"))',
            '(_ for _ in ()).throw(AssertionError("x"))', 'float("")', 'next(iter(()))', 'len(None)', '__import__("nothing")']


@check.family('expressions', lambda t: list(range(len(FAILURES))), 'an evaluated expression which fails in one of 15 ways at the i-th row, for every i, with and without a target column: '
              'the command fails and what it wrote is a beginning of the output')
def expressions(unit, cx):
    cells = ['x|Y', 'y, X', 'X y', 'l\nm', '']
    for more in ([], ['-t', 'n'], ['-t', 'n', '-a']):
        good, e = command(['transform', 'b', 'value + "!"', '--eval'] + more, TEXT, Faults(-1, None), Faults(-1, None))
        cx.expect(e is None, lambda: 'transform: %r' % e)
        for row in range(5):
            bad = ['transform', 'b', '%s if value == %r else value + "!"' % (FAILURES[unit], cells[row]), '--eval'] + more
            cx.at((bad, 'row', row))
            out, e = command(bad, TEXT, Faults(-1, None), Faults(-1, None))
            cx.expect(e is not None and not (isinstance(e, SystemExit) and not e.code), lambda: 'fog %s: the failure of the expression was swallowed: %r' % (' '.join(bad), out))
            cx.expect(good.startswith(out), lambda: 'fog %s: wrote %r, not a beginning of %r' % (' '.join(bad), out, good))
    # operations that fail
    if unit == 0:
        for ops in ('len,upper', 'len,strip', 'len,squeeze', 'len,unidecode', 'nothing', 'upper,nothing'):
            cx.at(('transform', ops))
            out, e = command(['transform', 'b', ops], TEXT, Faults(-1, None), Faults(-1, None))
            cx.expect(e is not None and not (isinstance(e, SystemExit) and not e.code), lambda: 'fog transform b %r: its failure was swallowed: %r' % (ops, out))


@check.family('measures', lambda t: [0], 'elements that cannot be hashed, iterables failing within measures')
def measures(unit, cx):
    class Bad(object):
        def __hash__(self):
            raise Refusal('hash')
    for name in ('jaccard_similarity', 'dice_coefficient', 'overlap_coefficient', 'binary_cosine_similarity', 'cosine_similarity'):
        f = getattr(M, name)
        for a, b in (([Bad()], ['a']), (['a'], [Bad()]), ([Bad()], [Bad()]), (['a', Bad()], ['a', 'b'])):
            cx.at((name, len(a), len(b)))
            try:
                got = f(a, b)
            except Refusal:
                cx.checked += 1
                continue
            cx.fail('%s of elements that cannot be hashed is %r' % (name, got))
    for error in ERRORS:
        for i in range(0, 4):
            def g(i=i, error=error):
                for k in range(3):
                    if k == i:
                        raise error('fault')
                    yield 'abc'[k]
                if i == 3:
                    raise error('fault')
            for name, f in (('ngrams', lambda: list(T.ngrams(2, list(g())))), ('labels', lambda: E.clusters_to_labels([list(g())])), ('simhash', lambda: L.simhash(g()))):
                cx.at((name, error.__name__, i))
                try:
                    got = f()
                except Exception as e:
                    cx.same((type(e), e.args), (error, ('fault',)), 'error of %s' % name)
                    continue
                cx.fail('%s: the error at element %d was swallowed: %r' % (name, i, got))
    cx.outcomes['measures'] = 1
