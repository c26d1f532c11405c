import itertools

from vp.core import Check
from checks import clus
from fog.clustering import sorted_neighborhood, adaptive_sorted_neighborhood

check = Check(
    'C17', 'exhaustive enumeration of sort orders and similarity relations on the real clusterers against a window model',
    'Every similarity relation on up to 5 items in every sort order and window, two passes with every second order, and '
    'every labelling of up to 9 sorted items for the adaptive windows.',
    ['items are distinct and hashable, the similarity is symmetric, the window is at least 1 (adaptive: 2)'])

MODES = ('connected_components', 'fuzzy_clusters')


def plain_pairs(order, window, sim):
    n = len(order)
    return {frozenset((order[i], order[j])) for i in range(n) for j in range(i + 1, min(n, i + window)) if sim(order[i], order[j])}


def adaptive_windows(order, window, sim):
    """Windows follow each other; one starts with the given size, doubles its span as long as its borders are similar,
    then gives back its last items which are not similar to the one before them, never under the given size."""
    n, f = len(order), 0
    while f + window - 1 < n:
        anchor, span = f, window - 1
        while f + span < n and sim(order[anchor], order[f + span]):
            anchor, span = f + span, span * 2
        end = min(f + span, n - 1)
        while end - f + 1 > window and not sim(order[end - 1], order[end]):
            end -= 1
        yield f, end
        f = end + 1
    if f < n:
        yield f, n - 1


def adaptive_pairs(order, window, sim):
    out = set()
    for s, e in adaptive_windows(order, window, sim):
        for i in range(s, e + 1):
            for j in range(i + 1, e + 1):
                if sim(order[i], order[j]):
                    out.add(frozenset((order[i], order[j])))
    return out


ALGOS = {'plain': (sorted_neighborhood, plain_pairs), 'adaptive': (adaptive_sorted_neighborhood, adaptive_pairs)}


def go(cx, algo, data, rel, keys, window, mode='connected_components', mn=2, mx=clus.INF, how='similarity', feed=list, multi=None):
    """data: item numbers in input order; keys: list of key functions (None: natural order)."""
    fn, ref = ALGOS[algo]
    sim = lambda a, b: a == b or (a, b) in rel or (b, a) in rel
    n = len(data)
    edges = set()
    for k in keys:
        edges |= ref(sorted(data, key=k), window, sim)
    edges = frozenset(tuple(sorted(e)) for e in edges)
    what = '%s sorted neighborhood of %s, similar %s, %d keys, window %s, %s, sizes %s %s, %s' % (
        algo, list(data), sorted(rel), len(keys), window, mode, mn, mx, how)
    cx.at(what)
    kw = dict(mode=mode, min_size=mn, max_size=mx)
    if window != 10:
        kw['window'] = window
    if multi or len(keys) > 1:
        kw['keys'] = keys
    elif keys[0] is not None:
        kw['key'] = keys[0]
    if how == 'similarity':
        kw['similarity'] = sim
    elif how == 'distance':
        kw['distance'] = lambda a, b: not sim(a, b)
    elif how == 'similarity radius':
        kw.update(similarity=lambda a, b: 0.5 if sim(a, b) else 0.25, radius=0.5)
    else:
        kw.update(distance=lambda a, b: 0 if sim(a, b) else 1, radius=0)
    got = [list(c) for c in fn(feed(data), **kw)]
    cx.checked += 1
    if mode == 'connected_components':
        want = clus.expect_components(n, edges, mn, mx)
        if clus.as_counter(got) != want:
            cx.fail('%s: %s, expected %s' % (what, got, sorted(map(sorted, want.elements()))))
    else:
        bad = clus.fuzzy_problem(n, edges, got, mn, mx)
        if bad:
            cx.fail('%s: %s' % (what, bad))
    cx.outcomes[(algo, mode, frozenset(map(frozenset, got)))] = 1


@check.family('all relations', lambda t: [(a, n, w, i) for a in ALGOS for n in range(0, 6) for w in range(2, 7) for i in range(4 if n == 5 else 1)],
              'every relation on up to 5 items, window 2..6, both modes')
def relations(unit, cx):
    a, n, w, r = unit
    for rel in list(clus.all_graphs(n))[r::4 if n == 5 else 1]:
        for mode in MODES:
            go(cx, a, range(n), rel, [None], w, mode)


@check.family('all relations and sort keys', lambda t: [(a, i) for a in ALGOS for i in range(24)],
              'every relation on 4 items, every sort key with ranks in 0..3 (ties included), window 2 and 3, size bounds')
def orders(unit, cx):
    a, r = unit
    n = 4
    for ranks in list(itertools.product(range(4), repeat=n))[r::24]:
        key = lambda x: ranks[x]
        for rel in clus.all_graphs(n):
            for w in (2, 3):
                go(cx, a, range(n), rel, [key], w)
    for ranks in list(itertools.permutations(range(4)))[r % 24::24]:
        key = lambda x: ranks[x]
        for rel in clus.all_graphs(n):
            for mode in MODES:
                for mn, mx in ((3, clus.INF), (2, 2), (3, 3), (2, 3)):
                    go(cx, a, (2, 0, 3, 1), rel, [key], 2, mode, mn, mx)


@check.family('several passes', lambda t: [(a, i) for a in ALGOS for i in range(24)],
              'every relation on 4 items, natural order and every permutation as a second pass, window 2 and 3, both modes, '
              'data as list and generator, keys as list and iterator')
def passes(unit, cx):
    a, r = unit
    n = 4
    ranks = list(itertools.permutations(range(n)))[r]
    key = lambda x: ranks[x]
    for rel in clus.all_graphs(n):
        for mode in MODES:
            for w in (2, 3):
                go(cx, a, range(n), rel, [None, key], w, mode)
        for feed in (iter, lambda d: (x for x in d), tuple):
            go(cx, a, range(n), rel, [None, key], 2, feed=feed)
            go(cx, a, range(n), rel, [key], 2, feed=feed)
            go(cx, a, range(n), rel, [key], 2, 'fuzzy_clusters', feed=feed, multi=True)
            go(cx, a, range(n), rel, [key, lambda x: -x, key], 3, 'fuzzy_clusters', feed=feed)


@check.family('ways to state the similarity', lambda t: list(ALGOS), 'every relation on 4 items, similarity or distance, with or without radius (0 included)')
def hows(unit, cx):
    for rel in clus.all_graphs(4):
        for how in ('similarity', 'distance', 'similarity radius', 'zero distance radius'):
            for w in (2, 3, 10):
                go(cx, unit, range(4), rel, [None], w, how=how)


@check.family('labellings', lambda t: [(a, n, w, i) for a in ALGOS for n in (6, 7, 8, 9) for w in (2, 3, 4, 5) for i in range(8)],
              'every labelling of 6..9 (thorough 11) sorted items with 2 labels (3 labels up to 8), items similar when equally '
              'labelled, window 2..5')
def labels(unit, cx):
    a, n, w, r = unit
    for L in (2, 3):
        m = n if L == 3 else (n if cx.tier == 'quick' else n + 2)
        if L == 3 and n > 8 and cx.tier == 'quick':
            continue
        for k, lab in enumerate(itertools.product(range(L), repeat=m)):
            if k % 8 != r or lab[0] != 0:
                continue
            rel = frozenset((i, j) for i in range(m) for j in range(i + 1, m) if lab[i] == lab[j])
            go(cx, a, range(m), rel, [None], w)


@check.family('six items', lambda t: [(a, i) for a in ('adaptive', 'plain') for i in range(64)],
              'every relation on 6 items, window 2 (thorough: and 3, 4)')
def six(unit, cx):
    a, r = unit
    for mask in range(r, 1 << 15, 64):
        rel = clus.graph_mask(6, mask)
        for w in ((2,) if cx.tier == 'quick' else (2, 3, 4)):
            go(cx, a, range(6), rel, [None], w)


@check.family('long lists', lambda t: [(a, n, w) for a in ALGOS for n in (9, 10, 11, 12, 20, 21, 50, 100, 257, 513, 1001) for w in (2, 3, 5, 7, 10)],
              'up to 1001 sorted items in equal runs of every length up to 25, and one dissimilar item at every place')
def long_(unit, cx):
    a, n, w = unit
    for run in range(1, 26) if n <= 100 else (1, 2, 3, 5, 10, 25, 300):
        rel = frozenset((i, j) for i in range(n) for j in range(i + 1, n) if i // run == j // run)
        go(cx, a, range(n), rel, [None], w)
    if n <= 21:
        for odd in range(n):
            rel = frozenset((i, j) for i in range(n) for j in range(i + 1, n) if odd not in (i, j))
            for mode in MODES:
                go(cx, a, range(n), rel, [None], w, mode)


@check.family('look-alike items', lambda t: list(range(len(clus.ITEMS))), 'every relation of 4 items easily mixed up (falsy, equal hashes, equal texts), sorted by an explicit key, window 2 to 4, both modes')
def alike(unit, cx):
    items = (clus.ITEMS[unit:] + clus.ITEMS[:unit])[:4]
    pos = lambda x: next(i for i, y in enumerate(items) if y is x)
    for rel in clus.all_graphs(4):
        sim = lambda i, j: i == j or (i, j) in rel or (j, i) in rel
        for algo, (fn, ref) in ALGOS.items():
            for window in (2, 3, 4):
                edges = frozenset(tuple(sorted(e)) for e in ref(list(range(4)), window, sim))
                for mode in ('connected_components', 'fuzzy_clusters'):
                    for kw in (dict(key=pos), dict(keys=[pos, pos])):
                        what = '%s sorted neighborhood of %r, similar %s, window %d, %s' % (algo, items, sorted(rel), window, mode)
                        cx.at(what)
                        got = [[pos(x) for x in c] for c in fn(items[::-1], similarity=lambda x, y: sim(pos(x), pos(y)), window=window, mode=mode, **kw)]
                        cx.checked += 1
                        if mode == 'connected_components':
                            cx.expect(clus.as_counter(got) == clus.expect_components(4, edges), '%s: %s' % (what, got))
                        else:
                            bad = clus.fuzzy_problem(4, edges, got, 2, clus.INF)
                            cx.expect(not bad, '%s: %s' % (what, bad))


@check.family('window of one', lambda t: list(range(0, 6)), 'every relation on up to 5 items: a window of one item holds no pair (plain variant)')
def one(unit, cx):
    for rel in clus.all_graphs(unit):
        for mode in MODES:
            go(cx, 'plain', range(unit), rel, [None], 1, mode)
            go(cx, 'plain', range(unit), rel, [None, lambda x: -x], 1, mode)


@check.family('scores', lambda t: [(a, i) for a in ALGOS for i in range(8)],
              'three items in one window, every score and radius among %d values easily mixed up by rounding or truncation, every truth '
              'value without radius, similarity and distance, both modes' % len(clus.SCORES))
def scores(unit, cx):
    algo, r = unit
    for what, kw, edges in itertools.islice(clus.scored(), r, None, 8):
        for mode in MODES:
            cx.at((algo, what, mode))
            got = [list(c) for c in ALGOS[algo][0]([0, 1, 2], mode=mode, **kw)]
            bad = (clus.fuzzy_problem(3, edges, got) if mode != 'connected_components' else None if clus.as_counter(got) == clus.expect_components(3, edges) else got)
            cx.expect(not bad, '%s sorted neighborhood with scores %r, %s: %s' % (algo, what, mode, bad))


@check.family('chains', lambda t: [400, 1200, 2500] if t == 'quick' else [400, 1200, 2500, 6000],
              'chains of 400 to 2500 (thorough 6000) items, each similar to the next only, in 3 orders: one cluster')
def chains(unit, cx):
    for order in (range(unit), range(unit - 1, -1, -1), sorted(range(unit), key=lambda i: (i * 7919 % unit, i))):
        cx.at(('chain', unit, order[0], order[1]))
        got = [sorted(c) for c in sorted_neighborhood(list(order), distance=lambda a, b: abs(a - b), radius=1, window=2)]
        cx.expect(got == [list(range(unit))], 'a chain of %d items, each similar to the next, is not one cluster: %s' % (unit, [len(c) for c in got]))
    for order in (range(unit), range(unit - 1, -1, -1), sorted(range(unit), key=lambda i: (i * 7919 % unit, i))):
        cx.at(('chain', unit, order[0], order[1]))
        got = [sorted(c) for c in sorted_neighborhood(list(order), keys=[None, None], distance=lambda a, b: abs(a - b), radius=1, window=3)]
        cx.expect(got == [list(range(unit))], 'a chain of %d items, each similar to the next, is not one cluster: %s' % (unit, [len(c) for c in got]))
