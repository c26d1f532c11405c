import itertools
from fractions import Fraction

from vp.core import Check, subsets
from checks import clus
from fog.clustering import intersection_index

check = Check(
    'C14', 'exhaustive enumeration of collections of token sets on the real index against the brute-force join',
    'Every pair of subsets of 7 tokens, every triple of subsets of 4 tokens, every multiset of 4 subsets of 3 tokens, both '
    'measures, both modes, all size bounds, radii at and around every reachable similarity.',
    ['the radius is positive', 'two items without tokens are not similar'])


def sim(metric, a, b):
    i = len(a & b)
    if not i:
        return 0.0
    return i / len(a | b) if metric == 'jaccard' else i / min(len(a), len(b))


def go(cx, recs, metric, radius, mode='connected_components', mn=2, mx=clus.INF, how='key'):
    n = len(recs)
    sets = [frozenset(r) for r in recs]
    edges = frozenset((i, j) for i, j in itertools.combinations(range(n), 2) if sim(metric, sets[i], sets[j]) >= radius)
    what = 'intersection_index(%r, metric=%s, radius=%r, mode=%s, sizes %s %s) [%s]' % (recs, metric, radius, mode, mn, mx, how)
    cx.at(what)
    kw = dict(metric=metric, radius=radius, mode=mode, min_size=mn, max_size=mx)
    if how == 'key':
        got = [list(c) for c in intersection_index(list(range(n)), key=lambda i: recs[i], **kw)]
    else:
        data = [list(r) for r in recs]
        ident = {id(d): i for i, d in enumerate(data)}
        got = [[ident[id(x)] for x in c] for c in intersection_index(data if how == 'list' else (d for d in data), **kw)]
    cx.checked += 1
    if mode == 'connected_components':
        want = clus.expect_components(n, edges, mn, mx)
        if clus.as_counter(got) != want:
            cx.fail('%s: %s, expected %s' % (what, got, sorted(map(sorted, want.elements()))))
    else:
        bad = clus.fuzzy_problem(n, edges, got, mn, mx)
        if bad:
            cx.fail('%s: %s' % (what, bad))
    cx.outcomes[(mode, frozenset(map(frozenset, got)))] = 1


RADII = sorted({i / j for j in range(1, 8) for i in range(1, j + 1)} | {0.01, 0.15, 0.3, 0.45, 0.7, 0.8, 0.9, 0.99})


@check.family('all pairs of token sets', lambda t: [(m, i) for m in ('jaccard', 'overlap') for i in range(24)],
              'every pair of subsets of 6 (thorough 7) tokens, radii at and around every reachable similarity')
def pairs(unit, cx):
    m, r = unit
    ss = list(subsets('abcdefg'[:6 if cx.tier == 'quick' else 7]))
    for x in ss[r::24]:
        for y in ss:
            for radius in RADII:
                go(cx, (x, y), m, radius)


@check.family('all triples and quadruples', lambda t: [(m, i) for m in ('jaccard', 'overlap') for i in range(24)],
              'every triple of subsets of 4 tokens, every quadruple of subsets of 3 tokens, radii 1/3, 0.5, 2/3, 1, both modes, size bounds')
def triples(unit, cx):
    m, r = unit
    for recs in list(itertools.product(list(subsets('abcd')), repeat=3))[r::24]:
        for radius in (1 / 3, 0.5, 2 / 3, 1.0):
            for mode in ('connected_components', 'fuzzy_clusters'):
                go(cx, recs, m, radius, mode)
    for recs in list(itertools.product(list(subsets('abc')), repeat=4))[r::24]:
        for radius in (0.5, 1.0):
            for mode in ('connected_components', 'fuzzy_clusters'):
                for mn, mx in ((2, clus.INF), (3, clus.INF), (2, 2), (2, 3)):
                    go(cx, recs, m, radius, mode, mn, mx)


@check.family('handover and repeated tokens', lambda t: ['jaccard', 'overlap'],
              'every pair of sequences over {a,b,c} up to length 4 with repeated tokens, no key, list and generator of lists')
def handover(unit, cx):
    ss = [t for n in range(5) for t in itertools.product('abc', repeat=n)]
    for x, y in itertools.product(ss, repeat=2):
        for how in ('list', 'generator'):
            go(cx, (x, y), unit, 0.5, how=how)
    # equal items are separate items
    for k in range(2, 6):
        cx.at(('equal strings', k, unit))
        got = [list(c) for c in intersection_index(['ab'] * k + ['cd'], metric=unit, radius=0.8)]
        cx.same(got, [['ab'] * k], '%d equal strings' % k)


@check.family('defaults', lambda t: [0], 'every pair of strings over {a,b,c} up to length 4, default measure (jaccard), default radius (0.8)')
def defaults(unit, cx):
    ws = [''.join(t) for n in range(5) for t in itertools.product('abc', repeat=n)]
    for x in ws:
        for y in ws:
            cx.at(('intersection_index', x, y))
            got = [sorted(c) for c in intersection_index([x, y])]
            cx.same(got, [sorted([x, y])] if x and y and sim('jaccard', set(x), set(y)) >= 0.8 else [], 'intersection_index([%r, %r])' % (x, y))


@check.family('populations', lambda t: [(m, n) for m in ('jaccard', 'overlap') for n in (30, 100, 257, 513, 1001)],
              '30 to 1001 items of sliding token windows, both modes')
def populations(unit, cx):
    m, n = unit
    recs = [tuple('t%d' % (i * 2 + k) for k in range(1 + i % 7)) for i in range(n)]
    for radius in (0.25, 0.5, 0.75, 1.0):
        for mode in ('connected_components', 'fuzzy_clusters'):
            go(cx, recs, m, radius, mode)


@check.family('look-alike tokens', lambda t: list(range(len(clus.KEYS))), 'every pair of 38 tokens easily mixed up (equal hashes, texts, falsy, equal across types)')
def alike(unit, cx):
    a = clus.KEYS[unit]
    for b in clus.KEYS:
        for metric in ('jaccard', 'overlap'):
            for radius in (0.4, 0.6, 1.0):
                for how in ('key', 'list'):
                    go(cx, [(a,), (b,)], metric, radius, how=how)
                    go(cx, [(a, b), (b, 'z'), (a, 'y')], metric, radius, how=how)
                    go(cx, [(a, b), (b, a), ('z', 'y', a)], metric, radius, mode='fuzzy_clusters', how=how)


@check.family('large items', lambda t: [(m, n) for m in ('jaccard', 'overlap') for n in (20, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000)],
              'two items of 20 to 1000 tokens sharing from none to all of them, radii at and around their similarity')
def wide(unit, cx):
    m, n = unit
    for size in sorted({n, n - 1, n // 2, 1}):
        for shared in sorted({0, 1, size // 3, size // 2, size - 1, size} & set(range(size + 1))):
            a = tuple('t%d' % i for i in range(n))
            b = tuple('t%d' % i for i in range(shared)) + tuple('u%d' % i for i in range(size - shared))
            s = sim(m, frozenset(a), frozenset(b))
            for radius in {s, min(1.0, s + 1e-4), s - 1e-4, 0.5, 0.8, 1.0}:
                if radius > 0:
                    go(cx, (a, b), m, radius)


@check.family('letters', lambda t: [(m, a) for m in ('jaccard', 'overlap') for a in 'aAeEéÉßıIİ1 _-'],
              'every pair of strings of up to 2 of 14 characters (cases, accents, dotless and dotted i, blanks), as items and as keys')
def letters(unit, cx):
    m, a = unit
    chars = 'aAeEéÉßıIİ1 _-'
    ws = [a] + [a + c for c in chars]
    for x in ws:
        for y in [c for c in chars] + [c + d for c in chars for d in chars]:
            for radius in (0.4, 1.0):
                go(cx, (x, y), m, radius)
            cx.at(('intersection_index', x, y, m))
            got = [sorted(c) for c in intersection_index([x, y], metric=m, radius=0.5)]
            cx.same(got, [sorted([x, y])] if sim(m, set(x), set(y)) >= 0.5 else [], 'intersection_index([%r, %r], metric=%s, radius=0.5)' % (x, y, m))


@check.family('chains', lambda t: [400, 1200, 2500] if t == 'quick' else [400, 1200, 2500, 6000],
              'chains of 400 to 2500 (thorough 6000) items, each similar to the next only, in 3 orders: one cluster')
def chains(unit, cx):
    for order in (range(unit), range(unit - 1, -1, -1), sorted(range(unit), key=lambda i: (i * 7919 % unit, i))):
        cx.at(('chain', unit, order[0], order[1]))
        got = [sorted([x[0] for x in c]) for c in intersection_index([(i, i + 1) for i in order], radius=1 / 3)]
        cx.expect(got == [list(range(unit))], 'a chain of %d items, each similar to the next, is not one cluster: %s' % (unit, [len(c) for c in got]))
