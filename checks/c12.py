import itertools

from vp import seams
from vp.core import Check
seams.install(pool=True, rng=True)
from checks import clus
from checks.c12_common import metrics
from fog.clustering import quickjoin
from fog.metrics import jaccard_similarity

check = Check(
    'C12', 'exhaustive enumeration of finite metric spaces and of every random pivot choice on the real join '
    'against the brute-force join',
    'Every metric with distances 1..3 on up to 4 points (1..2 on 5) with every combination of the first pivot draws, and larger '
    'spaces with every choice of pivots up to a number of departures from the first draw.',
    ['the distance is a true metric (distinct items may coincide, items may repeat), the block size is at least 2, beta is in (0, 1]',
     'random pivots come from random.Random; draws beyond the enumerated ones follow a fixed fair sequence'])

R = seams.RCONTROL


def verdict(cx, what, n, edges, got, mode, mn=2, mx=clus.INF):
    cx.checked += 1
    if mode == 'connected_components':
        c = clus.as_counter(got)
        want = clus.expect_components(n, edges, mn, mx)
        if c != want:
            cx.fail('%s: clusters %s, expected %s' % (what, got, sorted(map(sorted, want.elements()))))
    else:
        bad = clus.fuzzy_problem(n, edges, got, mn, mx)
        if bad:
            cx.fail('%s: %s' % (what, bad))
    cx.outcomes[(mode, frozenset(map(frozenset, got)))] = 1


def every_execution(cx, what, n, edges, call, mode, mn=2, mx=clus.INF, depth=None, bound=None):
    """All combinations of the first `depth` draws, or all executions with at most `bound` departures from the
    default draws; immediate redraws of the same value are collapsed (they change nothing)."""
    def one(ch):
        R.start(ch, 0)
        cx.at((what, mode, 'draws', list(ch.prefix)))
        try:
            got = [list(c) for c in call()]
        finally:
            R.stop()
        verdict(cx, '%s, %s, draws %s' % (what, mode, [c for c, _ in ch.trace]), n, edges, got, mode, mn, mx)
    if bound is None:
        seams.first_choices(one, depth)
    else:
        seams.deviations(one, bound, seams.fair)


@check.family('all metrics, all pivot draws', lambda t: [(n, v, i, 48) for n, v in ((2, (1, 2)), (3, (1, 2, 3)), (4, (1, 2, 3))) for i in range(48)],
              'every metric on 2, 3 and 4 points with distances in 1..3 (2 points: 1..2), radius 0..3, block size 2 '
              'and 3, plain and vantage point tree blocks, every combination of the first 5 (thorough 8) pivot draws')
def small(unit, cx):
    n, values, r, mod = unit
    for D in list(metrics(n, values))[r::mod]:
        dist = lambda a, b: D[a][b]
        for radius in (0, 1, 2, 3):
            edges = frozenset((i, j) for i, j in itertools.combinations(range(n), 2) if D[i][j] <= radius)
            for block in range(2, n):
                for vp in (False, True):
                    what = 'quickjoin of metric %s radius %d block_size %d vp_tree %s' % (D, radius, block, vp)
                    every_execution(cx, what, n, edges, lambda: quickjoin(
                        list(range(n)), radius, distance=dist, block_size=block, vp_tree=vp), 'connected_components',
                        depth=5 if cx.tier == 'quick' else 8)


@check.family('all metrics, modes, sizes, beta and similarity', lambda t: list(range(48)),
              'every metric on 4 points with distances in 1..3: fuzzy mode, size bounds, beta 0.5, a similarity '
              'instead of a distance; every first pivot pair')
def options(unit, cx):
    n = 4
    for D in list(metrics(n, (1, 2, 3)))[unit::48]:
        dist = lambda a, b: D[a][b]
        sim = lambda a, b: 1 - D[a][b] / 4
        for radius in (0, 1, 2, 3):
            edges = frozenset((i, j) for i, j in itertools.combinations(range(n), 2) if D[i][j] <= radius)
            w = 'quickjoin of metric %s radius %d block_size 2 ' % (D, radius)
            for name, kw in (('', {}), ('vp_tree', {'vp_tree': True}), ('beta', {'beta': 0.5})):
                every_execution(cx, w + 'fuzzy ' + name, n, edges, lambda: quickjoin(
                    range(n), radius, distance=dist, block_size=2, mode='fuzzy_clusters', **kw),
                    'fuzzy_clusters', bound=1)
                every_execution(cx, w + 'similarity ' + name, n, edges, lambda: quickjoin(
                    iter(range(n)), 1 - radius / 4, similarity=sim, block_size=2, **kw),
                    'connected_components', bound=1)
                for mn, mx in ((3, clus.INF), (2, 2), (3, 3)):
                    every_execution(cx, w + 'sizes %s %s ' % (mn, mx) + name, n, edges, lambda: quickjoin(
                        list(range(n)), radius, distance=dist, block_size=2, min_size=mn, max_size=mx, **kw),
                        'connected_components', mn, mx, bound=0)


@check.family('all metrics on 5 points', lambda t: list(range(64)),
              'every metric on 5 points with distances in 1..2, block size 2 and 3, at most 2 departures from the first draw')
def five(unit, cx):
    n = 5
    for D in list(metrics(n, (1, 2)))[unit::64]:
        dist = lambda a, b: D[a][b]
        for radius in (1,):
            edges = frozenset((i, j) for i, j in itertools.combinations(range(n), 2) if D[i][j] <= radius)
            for block in (2, 3):
                what = 'quickjoin of metric %s radius %d block_size %d' % (D, radius, block)
                every_execution(cx, what, n, edges, lambda: quickjoin(
                    list(range(n)), radius, distance=dist, block_size=block), 'connected_components', bound=2 if cx.tier != 'quick' else 1)


def line_sets(t):
    out = []
    for n in (6, 7, 8) if t == 'quick' else (6, 7, 8, 9, 10):
        for mask in range(1 << n):
            pts, x = [0], 0
            for k in range(n - 1):
                x += 1 + (mask >> k & 1)
                pts.append(x)
            if mask < 1 << (n - 1):
                out.append(tuple(pts))
    return out


@check.family('points on a line', lambda t: list(range(32)),
              'every sequence of gaps 1/2 between 6-8 points (thorough 10) on a line, radius 1 and 2, block size 2, 3 and 5, '
              'at most 1 departure from the first draw')
def line(unit, cx):
    for pts in line_sets(cx.tier)[unit::32]:
        n = len(pts)
        for order in (1, -1):
            P = pts[::order]
            for radius in (1, 2):
                edges = frozenset((i, j) for i, j in itertools.combinations(range(n), 2) if abs(P[i] - P[j]) <= radius)
                for block, vp in ((2, False), (3, True), (5, False)):
                    every_execution(cx, 'quickjoin of points %s radius %s block_size %d vp_tree %s' % (P, radius, block, vp),
                                    n, edges, lambda: ([P.index(x) for x in c] for c in quickjoin(
                                        list(P), radius, distance=lambda a, b: abs(a - b), block_size=block, vp_tree=vp)),
                                    'connected_components', bound=1)


def lev(a, b):
    from checks.lev_common import lev
    return lev(a, b)


@check.family('words', lambda t: [(k, i) for k in ('lev', 'jaccard') for i in range(16)],
              'every set of 3 (and a third of the sets of 4) words out of 12 under the Levenshtein distance (radius 1, 2) and the Jaccard '
              'similarity (radius 1/4 ... 1), block size 2, at most 1 departure')
def words_(unit, cx):
    kind, r = unit
    pool = ['a', 'b', 'ab', 'ba', 'abc', 'abd', 'bcd', 'abcd', 'cd', 'acd', 'dcba', 'e']
    sets = list(itertools.combinations(pool, 3)) + list(itertools.combinations(pool, 4))[::3]
    for ws in sets[r::16]:
        n = len(ws)
        idx = {w: i for i, w in enumerate(ws)}
        if kind == 'lev':
            for radius in (1, 2):
                edges = frozenset((i, j) for i, j in itertools.combinations(range(n), 2) if lev(ws[i], ws[j]) <= radius)
                for vp in (False, True):
                    every_execution(cx, 'quickjoin(%s, levenshtein, %d, block_size=2, vp_tree=%s)' % (ws, radius, vp), n, edges,
                                    lambda: ([idx[x] for x in c] for c in quickjoin(ws, radius, distance=lev, block_size=2, vp_tree=vp)),
                                    'connected_components', bound=1)
        else:
            sets_ = [frozenset(w) for w in ws]
            if len(set(sets_)) < n:
                continue
            for radius in (0.25, 1 / 3, 0.5, 0.6, 2 / 3, 0.75, 0.8, 1.0):
                edges = frozenset((i, j) for i, j in itertools.combinations(range(n), 2) if jaccard_similarity(ws[i], ws[j]) >= radius)
                for vp in (False, True):
                    every_execution(cx, 'quickjoin(%s, jaccard, %s, block_size=2, vp_tree=%s)' % (ws, radius, vp), n, edges,
                                    lambda: ([idx[x] for x in c] for c in quickjoin(ws, radius, similarity=jaccard_similarity, block_size=2, vp_tree=vp)),
                                    'connected_components', bound=1)


@check.family('around the default block size', lambda t: [(n, vp) for n in (0, 1, 2, 499, 500, 501, 502, 620, 1001, 2003) for vp in (False, True)],
              'no block size given: 0, 1, 2 items, and 499-502, 620 points on a line; real random generator, 3 seeds')
def default_block(unit, cx):
    n, vp = unit
    pts = [3 * i + (i % 3 == 1) for i in range(n)]
    edges = frozenset((i, i + 1) for i in range(n - 1) if pts[i + 1] - pts[i] <= 2)
    idx = {p: i for i, p in enumerate(pts)}
    for seed in (1, 2, 3):
        cx.at((n, vp, seed))
        got = [[idx[x] for x in c] for c in quickjoin(list(pts), 2, distance=lambda a, b: abs(a - b), seed=seed, vp_tree=vp)]
        verdict(cx, 'quickjoin of %d points on a line, seed %d, vp_tree %s' % (n, seed, vp), n, edges, got, 'connected_components')


@check.family('repeated items', lambda t: [(n, i) for n in ((3, 4, 5) if t == 'quick' else (3, 4, 5, 6)) for i in range(8)],
              'every list of 3-5 (thorough 6) points out of 0, 1, 3, 4, repeated ones included, radius 0..3, block size 2 and 3, at most 1 departure '
              'from the first draw: equal items are one item, every execution ends')
def repeated(unit, cx):
    n, r = unit
    for pts in list(itertools.product((0, 1, 3, 4), repeat=n))[r::8]:
        if len(set(pts)) == n:
            continue
        P = sorted(set(pts))
        for radius in (0, 1, 2, 3):
            edges = frozenset((i, j) for i, j in itertools.combinations(range(len(P)), 2) if P[j] - P[i] <= radius)
            for block, vp in ((2, False), (3, False), (2, True)):
                if n > block:
                    every_execution(cx, 'quickjoin of points %s radius %s block_size %d vp_tree %s' % (pts, radius, block, vp), len(P), edges,
                                    lambda: ([P.index(x) for x in c] for c in quickjoin(
                                        list(pts), radius, distance=lambda a, b: abs(a - b), block_size=block, vp_tree=vp)),
                                    'connected_components', bound=1)


@check.family('coinciding items', lambda t: list(range(16)),
              'distinct items at distance 0 of each other: every pseudometric with distances 0..2 on 3 and 4 points, '
              'radius 0..2, both modes, at most 1 departure')
def coinciding(unit, cx):
    for n in (3, 4):
        for D in list(metrics(n, (0, 1, 2)))[unit::16]:
            if all(D[i][j] for i in range(n) for j in range(i)):
                continue
            for radius in (0, 1, 2):
                edges = frozenset((i, j) for i, j in itertools.combinations(range(n), 2) if D[i][j] <= radius)
                for block in range(2, n):
                    for mode in ('connected_components', 'fuzzy_clusters'):
                        for vp in (False, True):
                            every_execution(cx, 'quickjoin of pseudometric %s radius %d block_size %d vp_tree %s' % (D, radius, block, vp), n, edges,
                                            lambda: quickjoin(list(range(n)), radius, distance=lambda a, b: D[a][b], block_size=block, vp_tree=vp, mode=mode),
                                            mode, bound=1)


@check.family('more repetitions than the default block', lambda t: [(n, vp) for n in (501, 700) for vp in (False, True)],
              'no block size given: 501 and 700 equal items, or halves of items at distance 1; real random generator, 3 seeds')
def many_repeated(unit, cx):
    n, vp = unit
    for pts in ([7] * n, [7 + i % 2 for i in range(n)], [i // (n - 1) * 9 for i in range(n)]):
        P = sorted(set(pts))
        edges = frozenset((i, j) for i, j in itertools.combinations(range(len(P)), 2) if P[j] - P[i] <= 1)
        for seed in (1, 2, 3):
            cx.at((n, vp, len(P), P[-1], seed))
            got = [[P.index(x) for x in c] for c in quickjoin(list(pts), 1, distance=lambda a, b: abs(a - b), seed=seed, vp_tree=vp)]
            verdict(cx, 'quickjoin of %d points with values %s, seed %d, vp_tree %s' % (n, P, seed, vp), len(P), edges, got, 'connected_components')


@check.family('items without order, fractional distances', lambda t: [(u, i) for u in (1, 0.25, 1 / 3) for i in range(8)],
              'every set of 3 and 4 of 7 points of the plane (complex numbers, which cannot be compared) and of 8 opaque items, coordinates in units, quarters '
              'and thirds, radius 0 to 3 units and in between, at most 1 departure')
def plane(unit, cx):
    u, r = unit
    points = [0, 1, 1j, 1 + 1j, 2, 2.5j, -1 - 1j]
    for n in (3, 4):
        for ps in list(itertools.combinations(points, n))[r::8]:
            D = [[abs(a - b) * u for b in ps] for a in ps]
            for radius in (0, 1, 1.25, 1.45, 2, 3) if n == 3 else (1, 1.45, 2):
                if any(abs(D[i][j] - radius * u) < 1e-9 and D[i][j] != radius * u for i in range(n) for j in range(i)):
                    continue
                R_ = radius * u
                edges = frozenset((i, j) for i, j in itertools.combinations(range(n), 2) if D[i][j] <= R_)
                items = [clus.Item(i) for i in range(n)]
                zs = [complex(p) for p in ps]
                for vp in (False, True):
                    every_execution(cx, 'quickjoin of complex %s times %r radius %r vp_tree %s' % (ps, u, R_, vp), n, edges,
                                    lambda: ([zs.index(z) for z in c] for c in quickjoin(list(zs), R_, distance=lambda a, b: D[zs.index(a)][zs.index(b)], block_size=2, vp_tree=vp)),
                                    'connected_components', bound=1)
                    every_execution(cx, 'quickjoin of opaque items at %s times %r radius %r vp_tree %s' % (ps, u, R_, vp), n, edges,
                                    lambda: ([x.i for x in c] for c in quickjoin(list(items), R_, distance=lambda a, b: D[a.i][b.i], block_size=2, vp_tree=vp, mode='fuzzy_clusters')),
                                    'fuzzy_clusters', bound=1)


@check.family('chains', lambda t: [400, 1200, 2500] if t == 'quick' else [400, 1200, 2500, 6000],
              'chains of 400 to 2500 (thorough 6000) items, each similar to the next only, in 3 orders: one cluster')
def chains(unit, cx):
    for order in (range(unit), range(unit - 1, -1, -1), sorted(range(unit), key=lambda i: (i * 7919 % unit, i))):
        cx.at(('chain', unit, order[0], order[1]))
        got = [sorted(c) for c in quickjoin(list(order), 1, distance=lambda a, b: abs(a - b), block_size=50, seed=1)]
        cx.expect(got == [list(range(unit))], 'a chain of %d items, each similar to the next, is not one cluster: %s' % (unit, [len(c) for c in got]))
