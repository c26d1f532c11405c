import copy
import itertools
import os
import pickle
import re
import resource
import signal
import warnings

import networkx as nx

from vp.core import Check
from vp.elsewhere import elsewhere
from fog import clustering as C, graph as G, join as J, key as K, lsh as L, metrics as M, evaluation as E, phonetics as P, tokenizers as T
from fog.lsh import MinHash, LSBMinHash, SuperMinHash
from checks.lev_common import lev

check = Check(
    'C34', 'exhaustive enumeration of histories of calls of the real library, each in a process of its own, against the calls made alone',
    'Every history A, B, A of calls out of 62 that cover every public function (thorough: every A, B, C), every interleaving of 6 steps of two lazily consumed results, '
    'arguments compared before and after every call, every kind of iterable as data.',
    ['random algorithms are given a seed', 'results are compared up to order', 'floatsam_sparsification with remove_edges changes its graph as documented'])

WORDS = ['abc', 'abd', 'bcd', 'xyz', 'xyy', 'abc', 'q', 'bce']
OTHER = ['smith', 'smiht', 'smyth', 'jones', 'jonas', 'smithe']
SETS = [tuple(x) for x in ('abc', 'abcd', 'xy', 'xyz', 'bcd', 'q')]


def near(a, b):
    return 1.0 - lev(a, b) / max(len(a), len(b), 1)


def similar(a, b):
    return lev(a, b) <= 1


def first(w):
    return w[:1]


def chars(w):
    return list(w)


def bip():
    g = nx.Graph()
    for u, ns in (('u1', 'abc'), ('u2', 'abd'), ('u3', 'de'), ('u4', 'z')):
        g.add_node(u, bipartite='u')
        for n in ns:
            g.add_node(n, bipartite='w')
            g.add_edge(u, n, weight=ord(n) - 90)
    return g


def weighted():
    g = nx.Graph()
    for k, (a, b) in enumerate(itertools.combinations(range(6), 2)):
        g.add_edge(a, b, weight=(k * 7 % 15) / 15 + 0.013)
    return g


# name: (function, arguments, keywords). Functions are looked up when called.
CALLS = {}


def call(name, f, /, *args, **kw):
    CALLS[name] = (f, args, kw)


for mode in ('connected_components', 'leader', 'fuzzy_clusters'):
    call('pairwise ' + mode, lambda *a, **k: C.pairwise(*a, **k), WORDS, mode=mode, distance=lev, radius=1)
call('pairwise other', lambda *a, **k: C.pairwise(*a, **k), OTHER, similarity=near, radius=0.6)
call('pairwise_leader', lambda *a, **k: C.pairwise_leader(*a, **k), OTHER, distance=lev, radius=2)
call('pairwise_fuzzy', lambda *a, **k: C.pairwise_fuzzy_clusters(*a, **k), OTHER, similarity=similar)
call('pairwise_cc', lambda *a, **k: C.pairwise_connected_components(*a, **k), OTHER, similarity=similar, min_size=1)
call('blocking', lambda *a, **k: C.blocking(*a, **k), WORDS, block=first, distance=lev, radius=1)
call('blocking several', lambda *a, **k: C.blocking(*a, **k), OTHER, blocks=chars, similarity=near, radius=0.7)
call('key_collision', lambda *a, **k: C.key_collision(*a, **k), WORDS, key=first)
call('key_collision merged', lambda *a, **k: C.key_collision(*a, **k), WORDS, keys=chars)
call('key_collision apart', lambda *a, **k: C.key_collision(*a, **k), OTHER, keys=chars, merge=False)
call('passjoin', lambda *a, **k: C.passjoin(*a, **k), WORDS, 1, lev)
call('passjoin 2', lambda *a, **k: C.passjoin(*a, **k), OTHER, 2, lev)
call('ppjoin', lambda *a, **k: C.ppjoin(*a, **k), SETS, 0.6)
call('ppjoin_plus', lambda *a, **k: C.ppjoin_plus(*a, **k), WORDS, 0.5, tokenizer=chars, metric='dice')
call('all_pairs', lambda *a, **k: C.all_pairs(*a, **k), SETS, 0.5, metric='binary_cosine')
call('quickjoin', lambda *a, **k: C.quickjoin(*a, **k), WORDS, 1, distance=lev, block_size=2, seed=3)
call('quickjoin tree', lambda *a, **k: C.quickjoin(*a, **k), OTHER, 2, distance=lev, block_size=3, seed=5, vp_tree=True)
call('vp_tree', lambda *a, **k: C.vp_tree(*a, **k), WORDS, lev, 1)
call('intersection_index', lambda *a, **k: C.intersection_index(*a, **k), SETS, radius=0.6)
call('intersection_index overlap', lambda *a, **k: C.intersection_index(*a, **k), WORDS, metric='overlap', radius=0.6, key=chars)
call('sorted_neighborhood', lambda *a, **k: C.sorted_neighborhood(*a, **k), WORDS, distance=lev, radius=1, window=3)
call('sorted_neighborhood zig zag', lambda *a, **k: C.sorted_neighborhood(*a, **k), OTHER, keys=K.zig_zag, similarity=similar, window=2)
call('adaptive', lambda *a, **k: C.adaptive_sorted_neighborhood(*a, **k), OTHER, distance=lev, radius=2, window=3)
call('minhash', lambda *a, **k: C.minhash(*a, **k), SETS, h=32, radius=0.5, seed=4)
call('minhash other', lambda *a, **k: C.minhash(*a, **k), WORDS, h=16, bands=16, radius=0.3, seed=9, key=chars)
call('nn_descent', lambda *a, **k: C.nn_descent(*a, **k), WORDS, 1, distance=lev, seed=2)
call('nn_descent_full', lambda *a, **k: C.nn_descent_full(*a, **k), OTHER, 2, distance=lev, seed=2)
call('hashjoin', lambda *a, **k: J.hashjoin(*a, **k), WORDS, OTHER, key=len)
call('hashjoin several', lambda *a, **k: J.hashjoin(*a, **k), OTHER, WORDS, keys=chars)
call('projection', lambda *a, **k: G.monopartite_projection(*a, **k), bip(), 'u')
call('projection jaccard', lambda *a, **k: G.monopartite_projection(*a, **k), bip(), 'w', metric='jaccard', threshold=0.2)
call('projection cosine', lambda *a, **k: G.monopartite_projection(*a, **k), bip(), 'u', metric='cosine', use_topology=False)
call('floatsam', lambda *a, **k: G.floatsam_sparsification(*a, **k), weighted())
call('floatsam other', lambda *a, **k: G.floatsam_sparsification(*a, **k), weighted(), starting_treshold=0.3, learning_rate=0.1, max_drifter_size=2)
call('best_matching', lambda *a, **k: E.best_matching_macro_average(*a, **k), [['a', 'b'], ['c', 'd']], [['a', 'c'], ['b', 'd']])
call('best_matching more', lambda *a, **k: E.best_matching_macro_average(*a, **k), [['a', 'b'], ['c']], [['a', 'c', 'x'], ['b']], allow_additional_items=True)
call('labels_to_clusters', lambda *a, **k: E.labels_to_clusters(*a, **k), [1, 2, 1, 3])
call('clusters_to_labels', lambda *a, **k: E.clusters_to_labels(*a, **k), [['a', 'b'], ['c']])
call('clusters_to_labels flat', lambda *a, **k: E.clusters_to_labels(*a, **k), [[0, 2], [1]], flat=True)
for name, x, y in (('jaccard_similarity', 'abc', 'bcd'), ('dice_coefficient', [1, 2], (2, 3)), ('overlap_coefficient', {1, 2}, [2]),
                   ('weighted_jaccard_similarity', {'a': 2, 'b': 1}, {'a': 1, 'c': 3}), ('cosine_similarity', [1, 2, 3], [3, 2, 1]),
                   ('sparse_cosine_similarity', {'a': 2, 'b': 1}, {'b': 1, 'c': 3}), ('binary_cosine_similarity', 'abca', 'bc'),
                   ('sparse_binary_cosine_similarity', {'a': 1}, {'a': 5, 'b': 1}), ('sparse_dot_product', {'a': 2, 'b': 1}, {'b': 4})):
    call(name, (lambda n: lambda *a, **k: getattr(M, n)(*a, **k))(name), x, y)
call('sparse_normalize', lambda *a, **k: M.sparse_normalize(*a, **k), {'a': 3, 'b': 4})
call('simhash', lambda *a, **k: L.simhash(*a, **k), ['a', 'b', 'c'])
call('simhash 64', lambda *a, **k: L.simhash(*a, **k), ['a', 'b', 'd'], f=64)
call('MinHash', lambda x: MinHash(16, seed=1).create_signature(x), 'abcd')
call('MinHash numpy', lambda x: [int(v) for v in MinHash(16, seed=1, use_numpy=True).create_signature(x)], 'abce')
call('LSBMinHash', lambda x: LSBMinHash(2, seed=1).create_signature(x), 'abcd')
call('SuperMinHash', lambda x: SuperMinHash(16).create_signature(x), 'abcd')
call('words', lambda x: T.words_tokenizer(x), "L'été, va-t-on #FooBar @x 3.5 😀!")
call('words options', lambda x: T.WordTokenizer(lower=True, drop=['punct'], stoplist=['x'])(x), 'The x #FooBar @X 3.5 😀!')
call('fingerprint', lambda x: K.fingerprint(x), 'North  Carolina, Éa north')
call('ngrams_fingerprint', lambda x: K.ngrams_fingerprint(2, x), 'Paris is')
call('ngrams', lambda n, x: T.ngrams(n, x), 2, ['a', 'b', 'c'])
call('ngram_keys', lambda n, x: K.ngram_keys(n, x), 2, 'smithy')
for name in ('levenshtein_1d_keys', 'damerau_levenshtein_1d_keys', 'levenshtein_1d_blocks', 'damerau_levenshtein_1d_blocks', 'levenshtein_2d_blocks',
             'damerau_levenshtein_2d_blocks', 'skeleton_key', 'omission_key'):
    call(name, (lambda n: lambda x: getattr(K, n)(x))(name), 'smithe')
call('cologne', lambda x: P.cologne(x), 'Müller-Lüdenscheidt')
call('rusalka', lambda x: P.rusalka(x), 'Tchekov')

NAMES = list(CALLS)
LAZY = [n for n in NAMES if n.split()[0] in ('pairwise', 'pairwise_leader', 'pairwise_fuzzy', 'pairwise_cc', 'blocking', 'key_collision', 'passjoin', 'ppjoin', 'ppjoin_plus',
                                             'all_pairs', 'quickjoin', 'vp_tree', 'intersection_index', 'sorted_neighborhood', 'adaptive', 'minhash', 'nn_descent',
                                             'nn_descent_full', 'hashjoin', 'words', 'ngrams', 'ngram_keys')]


def freeze(x):
    if isinstance(x, nx.Graph):
        return ('graph', sorted(map(repr, x.nodes(data=True))), sorted(repr((min(u, v), max(u, v), sorted(d.items()))) for u, v, d in x.edges(data=True)))
    if isinstance(x, dict):
        return ('dict', sorted((repr(k), repr(freeze(v))) for k, v in x.items()))
    if isinstance(x, (str, int, float, bytes, tuple, type(None))):
        return repr(x)
    if isinstance(x, (set, frozenset)):
        return ('set', sorted(map(repr, x)))
    if isinstance(x, list):
        return ('list', [freeze(y) for y in x])
    try:
        it = iter(x)
    except TypeError:
        return repr(x)
    return unordered(list(it))


def unordered(items):
    return ('items', sorted(repr(sorted(map(repr, y)) if isinstance(y, (list, set, frozenset)) else y) for y in items))


def run(name, args=None):
    f, a, k = CALLS[name]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return freeze(f(*(copy.deepcopy(a) if args is None else args), **k))


def forked(cx, what, fn):
    """Result of fn in a process of its own, so that this one is never touched by the library."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (30, 30))
            signal.alarm(120)
            try:
                out = ('ok', fn())
            except BaseException as e:
                out = ('error', '%s: %s' % (type(e).__name__, e))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        cx.fail('%s: the process died' % what)
    kind, out = pickle.loads(data)
    if kind == 'error':
        cx.fail('%s: %s' % (what, out))
    return out


BASE = {}


def base(cx, name):
    if name not in BASE:
        BASE[name] = forked(cx, name, lambda: run(name))
    return BASE[name]


@check.family('histories', lambda t: NAMES, 'every A, B, A (thorough: and every A, B, C) out of the calls')
def histories(unit, cx):
    for b in NAMES:
        cx.at((unit, b), 3)
        ra, rb, again = forked(cx, '%s, %s, %s' % (unit, b, unit), lambda: (run(unit), run(b), run(unit)))
        cx.same(ra, base(cx, unit), unit)
        cx.same(rb, base(cx, b), '%s after %s' % (b, unit))
        cx.same(again, base(cx, unit), '%s after %s and %s' % (unit, unit, b))
    cx.outcomes[unit] = 1
    if cx.tier == 'quick':
        return
    for b in NAMES:
        cx.at((unit, b, 'all'), 2 + len(NAMES))
        rs = forked(cx, '%s, %s, all' % (unit, b), lambda: (run(unit), run(b), [run(c) for c in NAMES], [run(c) for c in reversed(NAMES)]))
        for c, r in zip(NAMES, rs[2]):
            cx.same(r, base(cx, c), '%s in a history starting with %s, %s' % (c, unit, b))
        for c, r in zip(reversed(NAMES), rs[3]):
            cx.same(r, base(cx, c), '%s in a reversed history after %s, %s' % (c, unit, b))


def rounded(x):
    return re.sub(r'\d+\.\d{6,}(?:e[-+]\d+)?', lambda m: '%.6g' % float(m.group()), repr(x))


def everything():
    out = {}
    for name in NAMES:
        try:
            out[name] = rounded(run(name))
        except Exception as e:
            out[name] = repr(e)
    return out


@check.family('other processes', lambda t: list(range(1, 5 if t == 'quick' else 33)), 'the result of every call in processes whose strings hash otherwise (4 seeds, thorough 32)')
def processes(unit, cx):
    got = elsewhere('checks.c34', 'everything()', unit)
    for name in NAMES:
        cx.at((name, 'string hash seed', unit))
        cx.same(got.get(name) if isinstance(got, dict) else got, rounded(base(cx, name)), '%s in a process with other string hashes' % name)


@check.family('arguments', lambda t: NAMES, 'the arguments of every call, before and after it, fully and partly consumed')
def arguments(unit, cx):
    def body(steps):
        f, a, k = CALLS[unit]
        a, kk = copy.deepcopy(a), {x: v for x, v in k.items()}
        before = freeze_args(a)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            res = f(*a, **kk)
            if steps is None or not hasattr(res, '__next__'):
                freeze(res)
            else:
                for _ in range(steps):
                    next(res, None)
                mid = freeze_args(a)
                res.close() if hasattr(res, 'close') else None
                return before, mid, freeze_args(a)
        return before, freeze_args(a), freeze_args(a)
    for steps in (None, 0, 1, 2, 3):
        cx.at((unit, steps))
        before, mid, after = forked(cx, unit, lambda: body(steps))
        cx.same(mid, before, 'arguments of %s during the call' % unit)
        cx.same(after, before, 'arguments of %s after the call' % unit)


def freeze_args(a):
    return [freeze(x) if isinstance(x, nx.Graph) else repr(x) for x in a]


@check.family('interleaved results', lambda t: LAZY, 'two lazily consumed results, each order of 6 steps, every two calls')
def interleaved(unit, cx):
    for b in LAZY:
        def body():
            out = []
            for order in itertools.product((0, 1), repeat=6):
                its, got = [], ([], [])
                for name in (unit, b):
                    f, a, k = CALLS[name]
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        its.append(iter(f(*copy.deepcopy(a), **k)))
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    for x in order:
                        for v in itertools.islice(its[x], 1):
                            got[x].append(list(v) if isinstance(v, list) else v)
                    for x in (0, 1):
                        got[x].extend(its[x])
                out.append((unordered(got[0]), unordered(got[1])))
            return out
        cx.at((unit, b), 128)
        for order, (x, y) in zip(itertools.product((0, 1), repeat=6), forked(cx, 'interleaved %s, %s' % (unit, b), body)):
            cx.same(x, base(cx, unit), '%s interleaved with %s, steps %s' % (unit, b, order))
            cx.same(y, base(cx, b), '%s interleaved with %s, steps %s' % (b, unit, order))
    cx.outcomes[unit] = 1


class Once(object):
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


ITERABLE = [n for n in LAZY if n.split()[0] not in ('ngrams', 'ngram_keys', 'words', 'hashjoin')]


@check.family('iterables', lambda t: ITERABLE, 'the data of every clusterer as a list, tuple, iterator, generator, view and other iterable')
def iterables(unit, cx):
    f, a, k = CALLS[unit]
    data = a[0]
    for kind, make in (('tuple', tuple), ('iterator', iter), ('generator', lambda d: (x for x in d)), ('object', Once), ('values', lambda d: dict(enumerate(d)).values()),
                       ('map', lambda d: map(lambda x: x, d)), ('list subclass', lambda d: type('L', (list,), {})(d))):
        cx.at((unit, kind))
        got = forked(cx, '%s of a %s' % (unit, kind), lambda: run(unit, (make(list(data)),) + a[1:]))
        cx.same(got, base(cx, unit), '%s of a %s' % (unit, kind))


def options():
    """name: (function of the options and a text, options). The options hold the caller's own collections."""
    def words(text, **o):
        return list(T.WordTokenizer(**o)(text))

    def prints(text, **o):
        return list(T.FingerprintTokenizer(**o)(text))

    def keyer(text, **o):
        return K.FingerprintingKeyer(**o)(text)

    def grams(text, **o):
        return list(T.NgramsFingerprintTokenizer(**o)(2, text))
    kinds = ['punct', 'number']
    for make in (list, set, lambda x: dict.fromkeys(x)):
        for low in (False, True):
            yield words, {'stoplist': make(['The', 'x', 'É', '.']), 'lower': low}
            yield words, {'keep': make(['word'] + kinds), 'lower': low}
            yield words, {'drop': make(kinds), 'stoplist': make(['A', 'a']), 'lower': low, 'unidecode': True}
        for f in (prints, keyer, grams):
            yield f, {'stopwords': make(['The', 'É', 'x']), 'split': make(['-', '.']), 'min_token_size': 2}
            yield f, {'stopwords': make(['The', 'É', 'x'])}
            yield f, {'split': make([',', '|'])}


@check.family('options', lambda t: list(range(len(list(options())))), 'the collections given as options of every tokenizer and keyer, before and after construction and use')
def given(unit, cx):
    f, o = list(options())[unit]
    before = repr(o)
    first_ = None
    for k in range(3):
        for text in ('The x-É. A, 12 a|b', '', 'the É the'):
            cx.at((f.__name__, before, text, k))
            got = f(text, **o)
            cx.same(repr(o), before, 'options of %s' % f.__name__)
            if text == 'The x-É. A, 12 a|b':
                first_ = got if first_ is None else first_
                cx.same(got, first_, 'the same options again')
