import contextlib
import io
import itertools

import networkx as nx

from vp.core import Check
from fog import clustering as C, graph as G, lsh as L
from checks.cli_common import run, to_csv
from checks.lev_common import lev

check = Check(
    'C36', 'exhaustive enumeration of malformed calls of the real code (every name at one edit of a valid one, every missing argument) over every small input',
    'Every public function that takes a mode, metric, ordering, tokenizer or similarity: every name at one edit of an accepted one and a list of usual mistakes, on all subsets of 5 (thorough 7) points, '
    'with both modes and size limits; every unknown column, operation, algorithm, format and subcommand of the command line.',
    ['a refusal may come when the call is made or when its first result is asked for'])

ALPHABET = 'csx_ '


def near(valid, tier):
    """Names at one edit (deletion, insertion, substitution, swap, case of one letter) of accepted ones, and usual mistakes."""
    out = {}
    for v in valid:
        for i in range(len(v) + 1):
            out[v[:i]] = out[v[i:]] = 1
            if i < len(v):
                out[v[:i] + v[i + 1:]] = 1
                out[v[:i] + v[i].upper() + v[i + 1:]] = 1
                for c in ALPHABET:
                    out[v[:i] + c + v[i + 1:]] = 1
            for c in ALPHABET:
                out[v[:i] + c + v[i:]] = 1
            if 0 < i < len(v):
                out[v[:i - 1] + v[i] + v[i - 1] + v[i + 1:]] = 1
        out[v.upper()] = out[v.title()] = out[v.replace('_', '-')] = out[v.replace('_', ' ')] = out[v.replace('_', '')] = out[v + '\n'] = out[v.encode()] = 1
    for x in ('none', 'default', 'single_linkage', 'cc', 'cosine', 'levenshtein', 0, 1, True, False, 1.5, ()):
        out[x] = 1
    return [x for x in out if x not in valid]


def refused(cx, case, f, kind=TypeError, calls=1):
    """f must raise before giving any result."""
    cx.at(case, calls)
    cx.checked += 1
    try:
        r = f()
        if hasattr(r, '__next__'):
            r = next(r, 'nothing')
            if r == 'nothing':
                cx.fail('answered (without any result) instead of being refused')
    except kind as e:
        cx.outcome((type(e).__name__, repr(case[0])))
        return
    cx.fail('answered %.200r instead of being refused' % (r,))


def gap(a, b):
    return abs(a - b)


def line(n):
    for mask in range(1 << n):
        yield [i for i in range(n) if mask >> i & 1]


TWO = ('connected_components', 'fuzzy_clusters')
THREE = TWO + ('leader',)

CLUSTERERS = {
    'pairwise': (THREE, lambda d, **k: C.pairwise(d, distance=gap, radius=1, **k)),
    'blocking': (TWO, lambda d, **k: C.blocking(d, block=lambda x: x // 3, distance=gap, radius=1, **k)),
    'blocking, several': (TWO, lambda d, **k: C.blocking(d, blocks=lambda x: (x // 2, x // 3), distance=gap, radius=1, **k)),
    'intersection_index': (TWO, lambda d, **k: C.intersection_index(d, key=lambda x: (x // 2, x // 3), **k)),
    'passjoin': (TWO, lambda d, **k: C.passjoin(['a' * x for x in d], 1, lev, **k)),
    'sorted_neighborhood': (TWO, lambda d, **k: C.sorted_neighborhood(d, key=lambda x: x, distance=gap, radius=1, **k)),
    'sorted_neighborhood, several': (TWO, lambda d, **k: C.sorted_neighborhood(d, keys=[lambda x: x, lambda x: -x], distance=gap, radius=1, **k)),
    'adaptive_sorted_neighborhood': (TWO, lambda d, **k: C.adaptive_sorted_neighborhood(d, key=lambda x: x, distance=gap, radius=1, **k)),
    'quickjoin': (TWO, lambda d, **k: C.quickjoin(d, distance=gap, radius=1, seed=1, **k)),
    'quickjoin, small blocks': (TWO, lambda d, **k: C.quickjoin(d, distance=gap, radius=1, seed=1, block_size=2, **k)),
    'nn_descent': (TWO, lambda d, **k: C.nn_descent(d, radius=1, distance=gap, seed=1, **k)),
    'nn_descent_full': (TWO, lambda d, **k: C.nn_descent_full(d, radius=1, distance=gap, seed=1, **k)),
}

SIZES = ({}, {'min_size': 1}, {'min_size': 3}, {'max_size': 1})


@check.family('modes', lambda t: [(name, k) for name in CLUSTERERS for k in range(4)], 'every clusterer, every wrong mode, all subsets of 5 (thorough 7) points, 4 size limits')
def _(unit, cx):
    name, k = unit
    valid, f = CLUSTERERS[name]
    modes = near(valid, cx.tier) + [None]
    if 'leader' not in valid:
        modes.insert(0, 'leader')
    for data in line(5 if cx.tier == 'quick' else 7):
        if len(data) < 2 and name.startswith('nn_descent'):
            continue
        for mode in modes[k::4]:
            for size in SIZES if cx.tier != 'quick' or len(data) < 4 else SIZES[:1]:
                refused(cx, (name, data, mode, size), lambda: f(list(data), mode=mode, **size))
        for mode in valid:
            for size in SIZES:
                cx.at((name, data, mode, size))
                list(f(list(data), mode=mode, **size))


COMPARERS = {
    'pairwise': lambda d, **k: C.pairwise(d, **k),
    'pairwise leader': lambda d, **k: C.pairwise(d, mode='leader', **k),
    'pairwise fuzzy': lambda d, **k: C.pairwise(d, mode='fuzzy_clusters', **k),
    'pairwise_leader': lambda d, **k: C.pairwise_leader(d, **k),
    'pairwise_fuzzy_clusters': lambda d, **k: C.pairwise_fuzzy_clusters(d, **k),
    'pairwise_connected_components': lambda d, **k: C.pairwise_connected_components(d, **k),
    'blocking': lambda d, **k: C.blocking(d, block=lambda x: x // 3, **k),
    'blocking, several': lambda d, **k: C.blocking(d, blocks=lambda x: (x // 3, x // 2), **k),
    'sorted_neighborhood': lambda d, **k: C.sorted_neighborhood(d, key=lambda x: x, **k),
    'adaptive_sorted_neighborhood': lambda d, **k: C.adaptive_sorted_neighborhood(d, key=lambda x: x, **k),
}


@check.family('nothing to compare with', lambda t: list(COMPARERS), 'every clusterer without similarity and distance, all subsets of 5 (thorough 7) points, with and without radius')
def _(name, cx):
    f = COMPARERS[name]
    for data in line(5 if cx.tier == 'quick' else 7):
        for extra in ({}, {'radius': 1}, {'radius': 0}, {'similarity': None}, {'distance': None}, {'similarity': None, 'distance': None, 'radius': 2}):
            for size in SIZES:
                refused(cx, (name, data, extra, size), lambda: f(list(data), **dict(extra, **size)))


RECORDS = [('a',), ('a', 'b'), ('a', 'b', 'c'), ('d',), ()]
METRICS = ('jaccard', 'dice', 'binary_cosine')
ORDERINGS = ('freq', 'crc32')
JOINS = {'ppjoin': lambda *a, **k: C.ppjoin(*a, **k), 'all_pairs': lambda *a, **k: C.all_pairs(*a, **k), 'ppjoin_plus': lambda *a, **k: C.ppjoin_plus(*a, **k)}


@check.family('set joins', lambda t: [(n, k) for n in JOINS for k in range(len(RECORDS) + 1)], 'every wrong metric, ordering and tokenizer, all sets of records out of 5')
def _(unit, cx):
    name, n = unit
    f = JOINS[name]
    for data in itertools.combinations(RECORDS, n):
        for t in (0.1, 0.8, 1.0):
            for m in near(METRICS, cx.tier) + [None]:
                refused(cx, (name, data, t, 'metric', m), lambda: f(list(data), t, metric=m))
            for o in near(ORDERINGS, cx.tier):
                refused(cx, (name, data, t, 'ordering', o), lambda: f(list(data), t, token_ordering=o))
            for k in ('ngrams', 2, ['a'], {}, True, 0, '', []):
                refused(cx, (name, data, t, 'tokenizer', k), lambda: f(list(data), t, tokenizer=k))
            for m in METRICS:
                for o in ORDERINGS + (None,):
                    cx.at((name, data, t, m, o))
                    list(f(list(data), t, metric=m, token_ordering=o, tokenizer=list))


@check.family('intersection_index', lambda t: list(range(len(RECORDS) + 1)), 'every wrong metric, all sets of records out of 5, both modes')
def _(n, cx):
    for data in itertools.combinations(RECORDS, n):
        for m in near(('jaccard', 'overlap'), cx.tier) + [None, 'dice']:
            for r in (0.1, 0.8, 1):
                for mode in TWO:
                    refused(cx, (data, m, r, mode), lambda: C.intersection_index(list(data), metric=m, radius=r, mode=mode))


@check.family('projections', lambda t: list(range(16)), 'every wrong metric on every graph between 2 and 2 nodes, with and without topology, check and threshold')
def _(mask, cx):
    g = nx.Graph()
    for n in 'abxy':
        g.add_node(n, bipartite='u' if n in 'ab' else 'w')
    for k, e in enumerate(itertools.product('ab', 'xy')):
        if mask >> k & 1:
            g.add_edge(*e)
    for m in near(('jaccard', 'overlap', 'dice', 'cosine', 'binary_cosine'), cx.tier):
        if m == 'cosine':
            continue
        for topo in (True, False):
            for chk in (True, False):
                for t in (None, 0.0, 0.5):
                    refused(cx, (mask, m, topo, chk, t), lambda: G.monopartite_projection(g, 'u', metric=m, use_topology=topo, bipartition_check=chk, threshold=t))


@check.family('sizes of simhash', lambda t: [0], 'every f from 3 to 1100: only the powers of two up to 512 are accepted')
def _(unit, cx):
    for tokens in ([], ['a'], ['a', 'b', 'c']):
        for f in range(1, 1101):
            if f in (1, 2):
                continue
            if f in (4, 8, 16, 32, 64, 128, 256, 512):
                cx.at((tokens, f))
                L.simhash(tokens, f=f)
            else:
                refused(cx, (tokens, f), lambda: L.simhash(tokens, f=f), (AssertionError, TypeError, ValueError))


TABLES = [[['x', 'name'], ['1', 'a b'], ['2', 'b a']], [['name']], [['name', 'Name'], ['a', 'b']]]


def columns(table):
    return [c for c in near(table[0], 'quick') if isinstance(c, str) and c not in table[0] and not c.startswith('-')]


def stops(cx, case, args, text):
    cx.at(case)
    cx.checked += 1
    out = io.StringIO()
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            import sys
            argv, stdin, stdout = sys.argv, sys.stdin, sys.stdout
            sys.argv, sys.stdin, sys.stdout = ['fog'] + args, io.StringIO(text, newline=''), out
            try:
                from fog.cli.__main__ import main
                main()
            finally:
                sys.argv, sys.stdin, sys.stdout = argv, stdin, stdout
    except (Exception, SystemExit) as e:
        if isinstance(e, SystemExit) and e.code in (0, None):
            cx.fail('fog %s ends as if it had succeeded' % ' '.join(args))
        cx.outcome((type(e).__name__, args[0]))
        if out.getvalue():
            cx.fail('fog %s wrote %.200r before failing' % (' '.join(args), out.getvalue()))
        return
    cx.fail('fog %s was answered with %.300r' % (' '.join(args), out.getvalue()))


@check.family('command line', lambda t: list(range(len(TABLES))), 'every unknown column, operation, algorithm, format and subcommand at one edit of a valid one, on 3 tables: failure without output')
def _(i, cx):
    table = TABLES[i]
    text = to_csv(table)
    for c in columns(table):
        for args in (['cluster', c], ['cluster', c, '-t', 'html'], ['split', c], ['split', c, '-t', 'new'], ['split', c, '-r', 'name'], ['transform', c, 'lower'],
                     ['transform', c, 'lower', '-t', 'new', '-a'], ['transform', c, 'value', '--eval']):
            stops(cx, (args, text), args, text)
    ops = [o for o in near(('lower', 'strip', 'len', 'fingerprint'), 'quick') if isinstance(o, str) and not o.startswith('-')]
    for o in ops:
        for chain in (o, 'lower,' + o, o + ',lower'):
            args = ['transform', 'name', chain]
            stops(cx, (args, text), args, text)
            args = ['transform', 'name', chain, '-t', 'new']
            stops(cx, (args, text), args, text)
    for a in near(('fingerprint_collision',), 'quick'):
        if isinstance(a, str) and not a.startswith('-'):
            args = ['cluster', 'name', '-a', a]
            stops(cx, (args, text), args, text)
    for t in near(('toml', 'html'), 'quick') + ['json', 'csv']:
        if isinstance(t, str) and not t.startswith('-'):
            args = ['cluster', 'name', '-t', t]
            stops(cx, (args, text), args, text)
    for s in near(('cluster', 'split', 'transform'), 'quick'):
        if isinstance(s, str) and s and not s.startswith('-'):
            args = [s, 'name']
            stops(cx, (args, text), args, text)
    cx.at('sanity')
    run(['cluster', 'name'], text)
