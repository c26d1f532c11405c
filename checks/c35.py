import itertools
import math
import re

import networkx as nx

from vp.core import Check
from fog import clustering as C, graph as G, key as K, lsh as L, evaluation as E, tokenizers as T
from fog.lsh import MinHash, LSBMinHash, SuperMinHash
from fog.tokenizers import FingerprintTokenizer, NgramsFingerprintTokenizer, WordTokenizer
from fog.utils import squeeze
from checks.lev_common import lev
from checks.cli_common import run, to_csv

INF = float('inf')

check = Check(
    'C35', 'exhaustive enumeration of inputs and of option assignments on the real code, each call with an option left out against the same call with its documented default',
    'Every public function with options: every option left out alone, the other ones taking every assignment of default and other values with at most two (thorough: any number of) other values, and all '
    'options left out, on all subsets of 8 (thorough 9) points of a line, all words of up to 4 letters, all families of token sets, all small graphs, and large single clusters.',
    ['what the values given explicitly mean is decided by the other properties', 'random algorithms are given a seed', 'clusters are compared as sets of items'])

SPECS = {}


class Spec(object):
    __slots__ = ('name', 'call', 'defaults', 'others', 'data', 'big')

    def __init__(self, name, call, options, data, big=()):
        self.name, self.call, self.data, self.big = name, call, data, big
        self.defaults = {o: d for o, (d, _) in options.items()}
        self.others = {o: a for o, (_, a) in options.items()}


def spec(name, call, options, data, big=()):
    SPECS[name] = Spec(name, call, options, data, big)


def clusters(gen):
    return sorted(sorted(map(repr, c)) for c in gen)


def pairs(gen):
    return sorted(tuple(sorted(p)) for p in gen)


ASKED = [0]


def gap(a, b):
    ASKED[0] += 1
    return abs(a - b)


def cost(gen):
    """The clusters, and how many distances were asked for in this process."""
    ASKED[0] = 0
    return clusters(gen), ASKED[0]


def close(a, b):
    return 1 / (1 + abs(a - b))


def line(tier):
    """Every set of points of a line: chains, pairs and lone points in every arrangement."""
    n = 8 if tier == 'quick' else 9
    for mask in range(1 << n):
        yield [i for i in range(n) if mask >> i & 1]


def chain(tier):
    yield list(range(150))
    yield [0] * 150
    if tier != 'quick':
        yield list(range(1100))
        yield [0] * 1100


SIZES = {'min_size': (2, 3), 'max_size': (INF, 2)}
MODE = {'mode': ('connected_components', 'fuzzy_clusters')}
SMALL = {'min_size': (2, 1), 'max_size': (INF, 2)}

spec('pairwise', lambda d, **k: clusters(C.pairwise(d, distance=gap, radius=1, **k)), dict(SIZES, mode=('connected_components', 'leader')), line, chain)
spec('pairwise, one item clusters', lambda d, **k: clusters(C.pairwise(d, distance=gap, radius=1, **k)), dict(SMALL, **MODE), line)
spec('pairwise without radius', lambda d, **k: clusters(C.pairwise(d, similarity=lambda a, b: abs(a - b) <= 1, **k)), dict(SIZES, radius=(None, True)), line)
spec('pairwise without radius, distance', lambda d, **k: clusters(C.pairwise(d, distance=lambda a, b: max(0, abs(a - b) - 1), **k)), dict(SIZES, radius=(None, 1)), line)
spec('pairwise_leader', lambda d, **k: clusters(C.pairwise_leader(d, distance=gap, radius=1, **k)), SIZES, line, chain)
spec('pairwise_fuzzy_clusters', lambda d, **k: cost(C.pairwise_fuzzy_clusters(d, distance=gap, radius=1, **k)),
     dict(SIZES, key=(None, lambda x: x // 2), processes=(1, 1), chunk_size=(100, 3)), line, chain)
spec('pairwise_connected_components', lambda d, **k: cost(C.pairwise_connected_components(d, distance=gap, radius=1, **k)),
     dict(SMALL, key=(None, lambda x: x * 2), processes=(1, 1), chunk_size=(100, 3)), line, chain)
spec('blocking', lambda d, **k: cost(C.blocking(d, blocks=lambda x: (x // 2, (x + 1) // 2), distance=gap, radius=1, **k)), dict(SIZES, processes=(1, 1), **MODE), line)
spec('blocking in one block', lambda d, **k: clusters(C.blocking(d, block=lambda x: 0, similarity=close, radius=0.5, **k)), dict(SIZES, **MODE), line, chain)
spec('key_collision', lambda d, **k: clusters(C.key_collision(d, keys=lambda x: ('k%d' % (x // 2), 'k%d' % ((x + 1) // 2)), **k)), dict(SIZES, merge=(True, False)), line, chain)
spec('key_collision with one key', lambda d, **k: clusters(C.key_collision(d, key=lambda x: 'k%d' % (x // 3), **k)), dict(SMALL, merge=(True, False)), line,
     lambda tier: [list(range(3))] + [[0] * n for n in (150, 1100)])
spec('vp_tree, wide', lambda d, **k: clusters(C.vp_tree(d, distance=gap, radius=5000, **k)), SIZES, line, lambda tier: [list(range(150))])
spec('vp_tree', lambda d, **k: clusters(C.vp_tree(d, distance=gap, radius=1, **k)), SIZES, line, lambda tier: [list(range(150))])
spec('quickjoin', lambda d, **k: cost(C.quickjoin(d, distance=gap, radius=1, seed=1, **k)),
     dict(SIZES, mode=('connected_components', 'fuzzy_clusters'), block_size=(500, 2), beta=(1.0, 0.5), vp_tree=(False, True), processes=(1, 1)), line, lambda tier: [list(range(n)) for n in (500, 501, 700)])


def descent(f):
    def call(d, **k):
        if k.get('k') == 'log':
            k['k'] = int(math.log2(len(d))) if len(d) > 1 else None
        return cost(f(d, radius=1, distance=gap, seed=3, **k))
    return call


spec('nn_descent', descent(lambda *a, **k: C.nn_descent(*a, **k)), dict(SIZES, mode=('connected_components', 'fuzzy_clusters'), k=('log', 1)), line, chain)
spec('nn_descent_full', descent(lambda *a, **k: C.nn_descent_full(*a, **k)),
     dict(SIZES, mode=('connected_components', 'fuzzy_clusters'), k=('log', 1), rho=(0.5, 0.4), delta=(0.001, 0.3)), line, lambda tier: [list(range(n)) for n in (20, 40, 150, 300)])


def one_pair(tier):
    """Runs of up to 26 items of which exactly two are similar."""
    for n in (12, 26):
        for i in range(0, n - 1, 1 if tier != 'quick' else 3):
            for j in range(i + 1, n):
                yield n, ((i, j),)


def starred(tier):
    """One item similar to all items at up to some distance, and blocks of similar items of every length."""
    for m in range(2, 27):
        yield 26, tuple((0, j) for j in range(1, m))
        yield 30, tuple(itertools.combinations(range(m), 2))
        yield 30, tuple(itertools.combinations(range(2, 2 + m), 2))


def related(f, c, **k):
    n, edges = c
    es = set(edges)
    return clusters(f(list(range(n)), similarity=lambda a, b: (a, b) in es or (b, a) in es, **k))


for name, f in (('sorted_neighborhood', C.sorted_neighborhood), ('adaptive_sorted_neighborhood', C.adaptive_sorted_neighborhood)):
    spec(name, lambda c, f=f, **k: related(f, c, key=lambda x: x, **k), {'window': (10, 4), 'max_size': (INF, 3)}, lambda tier: itertools.chain(one_pair(tier), starred(tier)))
    spec(name + ', sizes', lambda d, f=f, **k: clusters(f(d, key=lambda x: x, distance=gap, radius=1, **k)), dict(SIZES, **MODE), line, lambda tier: [list(range(150))])
    spec(name + ', wide', lambda d, f=f, **k: clusters(f(d, key=lambda x: x, distance=gap, radius=5000, **k)), dict(SIZES, **MODE), line, lambda tier: [list(range(150))])
    spec(name + ', keys', lambda d, f=f, **k: clusters(f(d, keys=[lambda x: x, lambda x: -x], distance=gap, radius=1, **k)), dict(SMALL, **MODE), line)


def word_sets(tier):
    ws = [''.join(w) for n in range(4) for w in itertools.product('ab', repeat=n)] + ['abab', 'abba', 'baab']
    for n in (2, 3):
        for c in itertools.combinations(ws, n):
            yield list(c)
            if n == 2 or tier != 'quick':
                yield list(c)[::-1]


spec('passjoin', lambda d, **k: clusters(C.passjoin(d, 1, lev, **k)), dict(SIZES, sort=(True, True), **MODE), word_sets, lambda tier: [['a' * n for n in range(1, 130)]])

TOKENS = [c for n in range(1, 5) for c in itertools.combinations('abcdef', n)] + [tuple('abcde'), tuple('abcdf'), tuple('abcdef')]


def token_sets(tier):
    for a, b in itertools.combinations(TOKENS, 2):
        yield [a, b]
    sub = TOKENS[::4] if tier == 'quick' else TOKENS[::2]
    for c in itertools.combinations(sub, 3):
        yield list(c)


def nested(tier):
    """Two ranges of every pair of sizes: every ratio of small integers as similarity."""
    for n in range(1, 31):
        for m in range(1, n + 1):
            yield [tuple('t%d' % i for i in range(n)), tuple('t%d' % i for i in range(m))]
    for n in range(2, 13):
        for s in range(1, n):
            yield [tuple('t%d' % i for i in range(n)), tuple('t%d' % i for i in range(s, n + s))]


def token_data(tier):
    return itertools.chain(token_sets(tier), nested(tier))


spec('intersection_index', lambda d, **k: clusters(C.intersection_index(d, **k)),
     dict(SIZES, metric=('jaccard', 'overlap'), radius=(0.8, 0.5), **MODE), token_data, lambda tier: [[(1, 2, 3)] * 150])
spec('intersection_index, key', lambda d, **k: clusters(C.intersection_index(d, **k)), {'key': (None, lambda t: t[:2]), 'min_size': (2, 1)}, token_sets)
for name, f in (('ppjoin', C.ppjoin), ('all_pairs', C.all_pairs), ('ppjoin_plus', C.ppjoin_plus)):
    opts = {'metric': ('jaccard', 'dice'), 'tokenizer': (None, lambda t: t[1:]), 'token_ordering': ('freq', 'crc32')}
    if name == 'ppjoin':
        opts.update(all_pairs=(False, True), plus=(False, True))
    spec(name, lambda d, f=f, **k: pairs(f(d, 0.75, **k)), opts, token_data)
    spec(name + ', low threshold', lambda d, f=f, **k: pairs(f(d, 0.3, **k)), opts, token_sets)
spec('minhash', lambda d, **k: clusters(C.minhash(d, seed=5, **k)), {'h': (256, 16), 'radius': (0.8, 0.3), 'bands': (None, 4), 'use_numpy': (False, False), 'key': (None, lambda t: t[:2])},
     lambda tier: itertools.islice(nested(tier), 0, None, 8 if tier == 'quick' else 2))

TEXTS = ['', 'a', 'ab', 'The cat', 'a1b22', '\xc9t\xe9  \xe9t\xe9', 'mississippi', "l'Oeuvre & co.", 'XX III oo', 'de la mer', 'a-b c_d', '2001, a space 2001']


def texts(tier):
    for t in TEXTS:
        yield t
    for n in range(5 if tier == 'quick' else 6):
        for w in itertools.product("aAe1 -", repeat=n):
            yield ''.join(w)


spec('MinHash', lambda d, **k: list(MinHash(seed=7, **k).create_signature(d)), {'h': (256, 10), 'use_numpy': (False, False)}, lambda tier: [t for t in TEXTS if t])
spec('SuperMinHash', lambda d, **k: list(SuperMinHash(**k).create_signature(d)), {'h': (256, 10)}, lambda tier: [t for t in TEXTS if t])
spec('LSBMinHash', lambda d, **k: list(LSBMinHash(seed=7, **k).create_signature(d)), {'precision': (8, 2)}, lambda tier: [t for t in TEXTS if t])
spec('simhash', lambda d, **k: L.simhash(list(d), **k), {'f': (128, 64)}, texts)
spec('simhash_distance', lambda d, **k: (L.simhash_distance(d[0], d[1], **k), L.simhash_similarity(d[0], d[1], **k)), {'f': (128, 64)},
     lambda tier: itertools.product([(1 << i) - 1 for i in range(0, 130, 3)], [0, 1, 5, (1 << 64) - 1, (1 << 128) - 1]))

PRINT = {'keep_digits': (True, False), 'min_token_size': (1, 2), 'split': (None, '-'), 'stopwords': (None, ['a', 'the', '1']), 'squeeze': (False, True)}
spec('FingerprintingKeyer', lambda d, **k: K.FingerprintingKeyer(**k)(d), PRINT, texts)
spec('FingerprintTokenizer', lambda d, **k: FingerprintTokenizer(**k)(d), PRINT, texts)
spec('NgramsFingerprintKeyer', lambda d, **k: K.NgramsFingerprintKeyer(**k)(2, d), PRINT, texts)
spec('NgramsFingerprintTokenizer', lambda d, **k: NgramsFingerprintTokenizer(**k)(2, d), PRINT, texts)
NONE = dict(keep_digits=True, min_token_size=1, split=None, stopwords=None, squeeze=False)
READY = (
    (K.FingerprintingKeyer(**NONE), lambda x: K.fingerprint(x), lambda f, x: f(x)),
    (K.NgramsFingerprintKeyer(**NONE), lambda n, x: K.ngrams_fingerprint(n, x), lambda f, x: f(2, x)),
    (FingerprintTokenizer(**NONE), lambda x: T.fingerprint_tokenizer(x), lambda f, x: f(x)),
    (NgramsFingerprintTokenizer(**NONE), lambda n, x: T.ngrams_fingerprint_tokenizer(n, x), lambda f, x: f(2, x)),
    (WordTokenizer(lower=False), lambda x: T.words_tokenizer(x), lambda f, x: list(f(x))))
spec('the ready-made keyers and tokenizers', lambda d, **k: [g(f if k else r, d) for f, r, g in READY], {'ready': (True, True)}, lambda tier: itertools.chain(texts(tier), RICH))
spec('squeeze', lambda d, **k: squeeze(d, **k), {'keep_roman_numerals': (False, True)},
     lambda tier: [''.join(w) for n in range(6) for w in itertools.product('aIX1', repeat=n)])
spec('ngram_keys', lambda d, **k: sorted(K.ngram_keys(2, d, **k)), {'threshold': (0.8, 0.6)}, lambda tier: [('abcdefghijklmnopqrstuvwxyz' * 2)[i:i + n] for i in range(3) for n in range(16)])
for name in ('levenshtein_1d_keys', 'levenshtein_1d_blocks'):
    spec(name, lambda d, f=getattr(K, name), **k: sorted(f(d, **k)), {'transpositions': (False, True), 'flag': ('\x00', '*')}, texts)
spec('levenshtein_2d_blocks', lambda d, **k: sorted(K.levenshtein_2d_blocks(d, **k)), {'transpositions': (False, True), 'flag1': ('\x00', '*'), 'flag2': ('\x01', '+'), 'flag3': ('\x02', '/')},
     lambda tier: itertools.islice(texts(tier), 0, None, 3))

RICH = ['Hello World', 'www.lemonde.fr http://t.co/a b', '@Yomgui #Python is l33t', 'soooo coool nooooooo :) \U0001f600', 'caf\xe9 &amp; th\xe9', "l'ami n'est pas aujourd'hui", '#OneTwoThree 12 3,4', 'a bb ccc dddd',
        'me@site.com 50% \xe9t\xe9', 'The the THE']
spec('WordTokenizer', lambda d, **k: list(WordTokenizer(**k)(d)),
     {'lower': (False, True), 'unidecode': (False, True), 'reduce_words': (False, True), 'decode_html_entities': (False, True), 'normalize_mentions': (False, True),
      'normalize_hashtags': (False, True), 'mentions_as_words': (False, True), 'hashtags_as_words': (False, True), 'split_hashtags': (False, True),
      'min_word_length': (None, 3), 'max_word_length': (None, 4), 'stoplist': (None, ['the', 'is']), 'keep': (None, ['word']), 'drop': (None, ['word'])},
     lambda tier: RICH)


def graphs(tier):
    """Every bipartite graph between three and three nodes (quick: up to two and three)."""
    a = (2, 3) if tier == 'quick' else (3, 3)
    es = [('u%d' % i, 'w%d' % j) for i in range(a[0]) for j in range(a[1])]
    for mask in range(1 << len(es)):
        g = nx.Graph()
        for i in range(a[0]):
            g.add_node('u%d' % i, bipartite='u', color='w')
        for j in range(a[1]):
            g.add_node('w%d' % j, bipartite='w', color='u')
        for k, e in enumerate(es):
            if mask >> k & 1:
                g.add_edge(*e, weight=k + 1, value=7 - k)
        yield g


def dump(g):
    return (sorted((n, sorted(d.items())) for n, d in g.nodes(data=True)), sorted((min(u, v), max(u, v), sorted(d.items())) for u, v, d in g.edges(data=True)))


spec('monopartite_projection', lambda g, **k: dump(G.monopartite_projection(g, 'w', **k)),
     {'part': ('bipartite', 'color'), 'weight': ('weight', 'value'), 'metric': (None, 'cosine'), 'threshold': (None, 0.5), 'use_topology': (True, False), 'bipartition_check': (True, False)}, graphs)


def refused(g, **k):
    try:
        return dump(G.monopartite_projection(g, 'u', use_topology=False, **k))
    except TypeError:
        return 'refused'


def odd_graphs(tier):
    for mask in range(1 << 6):
        g = nx.Graph()
        for i in range(4):
            g.add_node(i, bipartite='u' if i < 2 else 'w')
        for k, e in enumerate(itertools.combinations(range(4), 2)):
            if mask >> k & 1:
                g.add_edge(*e)
        yield g


spec('monopartite_projection of any graph', refused, {'bipartition_check': (True, False), 'metric': (None, 'jaccard')}, odd_graphs)


def floats(tier):
    """Trees and cycles whose weights run over a grid, with two attributes."""
    steps = [0.01, 0.12, 0.3, 0.52, 0.9]
    for n in (3, 4) if tier == 'quick' else (3, 4, 5):
        for ws in itertools.product(steps, repeat=n - 1):
            g = nx.path_graph(n)
            for i, w in enumerate(ws):
                g[i][i + 1].update(weight=w, value=1 - w)
            yield g
    for size in (8, 21, 60):
        for cut in range(1, 8):
            g = nx.path_graph(size)
            for i in range(size - 1):
                g[i][i + 1].update(weight=0.9 if i != size - 1 - cut else 0.33, value=0.5 if i != cut - 1 else 0.2)
            yield g


def sparsified(g, **k):
    if k.get('max_drifter_size') == 'log':
        k['max_drifter_size'] = int(math.log(len(g)))
    g = g.copy()
    t = G.floatsam_sparsification(g, **k)
    return t, dump(g)


spec('floatsam_sparsification', sparsified, {'starting_treshold': (0.0, 0.31), 'learning_rate': (0.05, 0.2), 'max_drifter_size': ('log', 2), 'weight': ('weight', 'value'), 'remove_edges': (False, True)}, floats)


def partitions(tier):
    items = 'abcd'
    def parts(xs):
        if not xs:
            yield []
            return
        for p in parts(xs[1:]):
            yield [[xs[0]]] + p
            for i in range(len(p)):
                yield p[:i] + [[xs[0]] + p[i]] + p[i + 1:]
    for t in parts(items):
        for p in parts(items if len(t) % 2 else items + 'e'):
            yield t, p


def scores(d, **k):
    try:
        return E.best_matching_macro_average(d[0], d[1], **k)
    except TypeError:
        return 'refused'


spec('best_matching_macro_average', scores, {'allow_additional_items': (False, True)}, partitions)


def labels(d, **k):
    r = E.clusters_to_labels(d[1], **k)
    return sorted(r.items()) if isinstance(r, dict) else r


spec('clusters_to_labels', labels, {'key': (None, str.upper), 'flat': (False, False)}, partitions)
spec('clusters_to_labels of indices', lambda d, **k: labels((None, [[ord(x) - 97 for x in c] for c in d[1]]), **k), {'key': (None, lambda x: -x - 1), 'flat': (False, True)}, partitions)

COLUMN = ['a b', 'b a', 'A  B', 'c', 'a|b', '', 'b|a|c', '#', 'a,b']


def columns(tier):
    for n in range(4):
        for c in itertools.product(COLUMN if tier != 'quick' or n < 3 else COLUMN[:6], repeat=n):
            yield to_csv([['x', 'name']] + [[str(i), v] for i, v in enumerate(c)])


def command(argv, flags):
    def f(text, **k):
        args = list(argv)
        for o, v in sorted(k.items()):
            args += [flags[o], v]
        return strip(run(args, text))
    return f


def strip(text):
    """The report without its times."""
    text = re.sub(r'took = .*', 'took', text)
    return re.sub(r'\d{4}-\d\d-\d\d(T[0-9:.]+)?|\d+:\d\d:\d\d(\.\d+)?', 'TIME', text)


spec('fog cluster', command(['cluster', 'name'], {'a': '-a', 't': '-t'}), {'a': ('fingerprint_collision', 'fingerprint_collision'), 't': ('toml', 'html')}, columns)
spec('fog split', command(['split', 'name'], {'s': '-s'}), {'s': ('|', ',')}, columns)


def assignments(s, tier):
    """Assignments of default and other values to the options, simplest first."""
    names = sorted(s.defaults)
    most = 2 if tier == 'quick' else (len(names) if len(names) <= 6 else 3)
    for n in range(min(most, len(names)) + 1):
        for c in itertools.combinations(names, n):
            yield dict((o, s.others[o] if o in c else s.defaults[o]) for o in names)


def outcome(s, data, kw):
    try:
        return s.call(data, **kw)
    except TypeError:
        if kw.get('keep') and kw.get('drop'):
            return 'refused'
        raise


def compare(cx, s, data, full):
    cx.at((s.name, data if not isinstance(data, nx.Graph) else dump(data), full), 1)
    want = outcome(s, data, full)
    cx.outcome(repr(want))
    for o in sorted(full):
        if full[o] is s.defaults[o] or full[o] == s.defaults[o]:
            kw = dict(full)
            del kw[o]
            cx.calls += 1
            cx.same(outcome(s, data, kw), want, '%s without the option %s, other options %r, against the same with %s=%r' % (s.name, o, kw, o, s.defaults[o]))


def units(tier):
    return [(name, k) for name in SPECS for k in range(4)]


@check.family('an option left out is its default', units,
              lambda tier: 'every function, every option left out, others at default or other values (at most %s others), every input of the list' % ('2' if tier == 'quick' else 'all'))
def _(unit, cx):
    name, k = unit
    s = SPECS[name]
    full = list(assignments(s, cx.tier))
    for i, data in enumerate(s.data(cx.tier)):
        if i % 4 != k:
            continue
        for f in full:
            compare(cx, s, data, f)
        cx.at((name, data if not isinstance(data, nx.Graph) else dump(data), 'all options left out'), 2)
        cx.same(outcome(s, data, {}), outcome(s, data, dict(s.defaults)), '%s without options, against the same with every default' % name)


@check.family('large inputs', lambda tier: [(name, i) for name, s in SPECS.items() if s.big for i in range(len(list(s.big(tier))))], 'large single clusters, all options left out')
def _(unit, cx):
    name, i = unit
    s = SPECS[name]
    data = list(s.big(cx.tier))[i]
    cx.at((name, len(data)), 2)
    cx.same(outcome(s, data, {}), outcome(s, data, dict(s.defaults)), '%s of %d items without options, against the same with every default' % (name, len(data)))
