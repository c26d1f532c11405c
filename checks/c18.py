import itertools

from vp import seams
from vp.core import Check, subsets
seams.install(pool=True, rng=True)
from checks import clus
from fog.clustering import minhash, nn_descent, nn_descent_full
from fog.lsh import MinHash

check = Check(
    'C18', 'exhaustive enumeration of weighted similarity graphs and of the random draws on the real clusterers against '
    'soundness, and of token sets against banded signatures',
    'Every graph with similarities 0..2 on up to 4 items with every combination of the first random draws, graphs on 5 items with '
    'departures from the fixed draws, k from 1 to beyond the number of items; every pair and triple of subsets of 5 tokens for minhash.',
    ['two items without any token are neither claimed similar nor dissimilar', 'the similarity is symmetric; k is at least 1 and delta positive',
     'random draws come from random.Random; draws beyond the enumerated ones follow a fixed fair sequence',
     'minhash: items are distinct and hashable, the number of bands does not exceed h, tokens have distinct checksums'])

R = seams.RCONTROL
ALGOS = {'nn_descent': nn_descent, 'nn_descent_full': nn_descent_full}


def connected(c, adj):
    c = set(c)
    seen, stack = set(), [next(iter(c))]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(y for y in adj[x] if y in c)
    return seen == c


def judge(cx, what, n, edges, got, mode, k, examined, mn=2, mx=clus.INF):
    cx.checked += 1
    adj = clus.neighbours(n, edges)
    if k is not None and k >= n - 1:
        if mode == 'connected_components':
            want = clus.expect_components(n, edges, mn, mx)
            if clus.as_counter(got) != want:
                cx.fail('%s: %s, expected %s since k covers every item' % (what, got, sorted(map(sorted, want.elements()))))
        else:
            bad = clus.fuzzy_problem(n, edges, got, mn, mx)
            if bad:
                cx.fail('%s: %s (k covers every item)' % (what, bad))
        return
    seen = set()
    for c in got:
        if len(set(c)) != len(c) or not mn <= len(c) <= mx or not set(c) <= set(range(n)):
            cx.fail('%s: cluster %r repeats an item, or its size is out of bounds' % (what, c))
        if mode == 'connected_components':
            if seen & set(c):
                cx.fail('%s: clusters overlap: %r' % (what, got))
            seen |= set(c)
            if not connected(c, adj):
                cx.fail('%s: cluster %r is not linked by similar pairs' % (what, c))
        elif not any(set(c) - {l} <= adj[l] for l in c):
            cx.fail('%s: no item of cluster %r is similar to all others' % (what, c))
    if mode == 'connected_components' and (mn, mx) == (2, clus.INF) and k is not None:
        where = {x: i for i, c in enumerate(got) for x in c}
        for a, b in examined:
            if (a, b) in edges or (b, a) in edges:
                if len(adj[a]) <= k and len(adj[b]) <= k and where.get(a, -1) != where.get(b, -2):
                    cx.fail('%s: %d and %d were compared and found similar, and have at most %d similar items, but are not together in %r'
                            % (what, a, b, k, got))


def run(cx, algo, n, W, radius, k, mode, how, mn=2, mx=clus.INF, depth=None, bound=None, feed=list):
    """W[i][j]: similarity of i and j."""
    edges = frozenset((i, j) for i, j in itertools.combinations(range(n), 2) if W[i][j] >= radius)
    what = '%s of %s radius %s k %s %s %s sizes %s %s' % (algo, W, radius, k, mode, how, mn, mx)

    def one(ch):
        examined = set()

        def sim(a, b):
            examined.add((a, b))
            return 3 if a == b else W[a][b]
        kw = dict(similarity=sim) if how == 'similarity' else dict(distance=lambda a, b: 3 - sim(a, b))
        R.start(ch, 0)
        cx.at((what, 'draws', list(ch.prefix)))
        try:
            got = [list(c) for c in ALGOS[algo](feed(range(n)), radius if how == 'similarity' else 3 - radius, k=k, mode=mode,
                                                min_size=mn, max_size=mx, **kw)]
        finally:
            R.stop()
        judge(cx, '%s draws %s' % (what, [c for c, _ in ch.trace]), n, edges, got, mode, k, examined, mn, mx)
        cx.outcomes[(algo, mode, frozenset(map(frozenset, got)))] = 1
    if bound is None:
        seams.first_choices(one, depth)
    else:
        seams.deviations(one, bound, seams.fair)


def weightings(n, values):
    es = list(itertools.combinations(range(n), 2))
    for vs in itertools.product(values, repeat=len(es)):
        W = [[0] * n for _ in range(n)]
        for (i, j), v in zip(es, vs):
            W[i][j] = W[j][i] = v
        yield W


@check.family('all small weighted graphs, all first draws', lambda t: [(a, n, i) for a in ALGOS for n in (2, 3, 4) for i in range(24)],
              'every similarity matrix with values 0..2 on 2..4 items, radius 1 and 2, k 1..n+1, every combination of the '
              'first 3 (thorough 5) draws')
def small(unit, cx):
    a, n, r = unit
    for W in list(weightings(n, (0, 1, 2)))[r::24]:
        for radius in (1, 2):
            for k in range(1, n + 2):
                d = (3 if n == 4 else 4) if cx.tier == 'quick' else 5
                run(cx, a, n, W, radius, k, 'connected_components', 'similarity', depth=d if k < n - 1 else 1)


@check.family('modes, sizes, distances', lambda t: [(a, i) for a in ALGOS for i in range(24)],
              'every similarity matrix with values 0..1 on 4 items, both modes, size bounds, distance or similarity, every first draw; default k')
def modes(unit, cx):
    a, r = unit
    for W in list(weightings(4, (0, 1)))[r::24]:
        for mode in ('connected_components', 'fuzzy_clusters'):
            for how in ('similarity', 'distance'):
                for k in (None, 1, 2, 3, 9):
                    for mn, mx in ((2, clus.INF), (3, clus.INF), (2, 2), (2, 3)):
                        run(cx, a, 4, W, 1, k, mode, how, mn, mx, bound=1 if k in (1, 2) and mn == 2 else 0, feed=iter if mn == 2 else list)


@check.family('five items', lambda t: [(a, i) for a in ALGOS for i in range(32)],
              'every relation on 5 items (values 0 and 1), k 1..3, at most 1 departure from the fixed draws')
def five(unit, cx):
    a, r = unit
    for mask in range(r, 1 << 10, 32):
        e = clus.graph_mask(5, mask)
        W = [[1 if (i, j) in e or (j, i) in e else 0 for j in range(5)] for i in range(5)]
        for k in (1, 2, 3):
            run(cx, a, 5, W, 1, k, 'connected_components', 'similarity', bound=1)


@check.family('more items, real generator', lambda t: [(a, n, s) for a in ALGOS for n in (0, 1, 2, 3, 7, 8, 9, 30, 64, 100, 300)
                                                       for s in ((0, 1, 2, 3) if t == 'quick' and n <= 64 else (1, 2) if t == 'quick' else range(17))],
              'points on a line, 0 to 300 items, default k and k 1..n+1, several seeds: it ends, is sound, and the same seed gives the same clusters')
def more(unit, cx):
    a, n, seed = unit
    pts = [(i * 37) % 101 + (i // 3) * 0.25 for i in range(n)]
    for radius in (0, 1, 2, 5):
        W = [[-abs(x - y) for y in pts] for x in pts]
        edges = frozenset((i, j) for i, j in itertools.combinations(range(n), 2) if W[i][j] >= -radius)
        for k in [None] + sorted({1, 2, 5} | ({max(1, n - 1), n, n + 1} if n <= 30 else {n - 1} if n <= 100 else set()) - {0}):
            for mode in ('connected_components', 'fuzzy_clusters'):
                cx.at((a, n, 'seed', seed, 'radius', radius, 'k', k, mode))
                f = lambda: [list(c) for c in ALGOS[a](list(range(n)), radius, distance=lambda i, j: abs(pts[i] - pts[j]), k=k, seed=seed, mode=mode)]
                got = f()
                judge(cx, '%s of %d points, seed %d, radius %s, k %s' % (a, n, seed, radius, k), n, edges, got, mode, k, ())
                if n <= 9 or n <= 64 and mode == 'connected_components':
                    cx.at((a, n, 'seed', seed, 'radius', radius, 'k', k, mode, 'again'))
                    cx.same(f(), got, 'the same seed')


@check.family('repeated items', lambda t: [(a, i) for a in ALGOS for i in range(4)],
              'every sequence of 2..5 values out of 3, k covering every item: repeated values are items of their own, in both modes')
def repeated(unit, cx):
    a, r = unit
    for n in range(2, 6):
        for pts in list(itertools.product((0, 1, 5), repeat=n))[r::4]:
            for radius in (0, 1, 4):
                edges = frozenset((i, j) for i, j in itertools.combinations(range(n), 2) if abs(pts[i] - pts[j]) <= radius)
                for k in (n - 1, n + 1):
                    cx.at((a, pts, radius, k))
                    got = sorted(sorted(c) for c in ALGOS[a](list(pts), radius, distance=lambda x, y: abs(x - y), k=k, seed=3))
                    want = sorted(sorted(pts[i] for i in c) for c in clus.expect_components(n, edges).elements())
                    cx.same(got, want, '%s of %r, radius %s, k %d' % (a, pts, radius, k))


# ------------------------------------------------------------------------------------------------ minhash

def mh_expected(recs, h, bands, radius, seed, numpy=False):
    mh = MinHash(h, seed=seed, use_numpy=numpy)
    sigs = [[int(x) for x in mh.create_signature(r)] for r in recs]
    rows = h // bands
    edges = set()
    for i, j in itertools.combinations(range(len(recs)), 2):
        a, b = set(recs[i]), set(recs[j])
        if any(sigs[i][k * rows:(k + 1) * rows] == sigs[j][k * rows:(k + 1) * rows] for k in range(bands)):
            if len(a & b) / len(a | b) >= radius:
                edges.add((i, j))
    return frozenset(edges)


def guessed(h, radius):
    for b in range(1, h):
        if (1.0 / b) ** (1 / (h / b)) <= radius:
            return b
    return h


def mh(cx, recs, h, bands, radius, seed, numpy=False):
    if sum(1 for x in recs if not x) > 1:
        return   # two items without tokens: a convention, not claimed
    what = 'minhash(%r, h=%d, bands=%s, radius=%s, seed=%s, use_numpy=%s)' % (recs, h, bands, radius, seed, numpy)
    cx.at(what)
    got = [list(c) for c in minhash(list(range(len(recs))), h=h, key=lambda i: recs[i], radius=radius, bands=bands, seed=seed, use_numpy=numpy)]
    n = len(recs)
    b = guessed(h, radius) if bands is None else bands
    want = clus.expect_components(n, mh_expected(recs, h, b, radius, seed, numpy))
    cx.same(clus.as_counter(got), want, what)
    index = {r: i for i, r in enumerate(recs)}
    if len(index) == n:
        cx.calls += 1
        bare = [[index[x] for x in c] for c in minhash(list(recs), h=h, radius=radius, bands=bands, seed=seed, use_numpy=numpy)]
        cx.same(clus.as_counter(bare), want, what + ' without a key')
    sets = [frozenset(r) for r in recs]
    edges = frozenset((i, j) for i, j in itertools.combinations(range(n), 2)
                      if (sets[i] or sets[j]) and len(sets[i] & sets[j]) / len(sets[i] | sets[j]) >= radius)
    adj = clus.neighbours(n, edges)
    where = {}
    for q, c in enumerate(got):
        cx.checked += 1
        real = [x for x in c if sets[x]]
        if len(set(c)) != len(c) or len(c) < 2 or (real and not connected(c, adj)):
            cx.fail('%s: cluster %r is not linked by pairs reaching the radius' % (what, c))
        for x in c:
            if x in where:
                cx.fail('%s: clusters overlap' % what)
            where[x] = q
    for i, j in itertools.combinations(range(n), 2):
        if sets[i] and sets[i] == sets[j]:
            cx.checked += 1
            if where.get(i, -1) != where.get(j, -2):
                cx.fail('%s: items %d and %d have the same tokens but are not together' % (what, i, j))
    cx.outcomes[frozenset(map(frozenset, got))] = 1


@check.family('minhash, pairs', lambda t: [(h, i) for h in (1, 2, 3, 4, 5, 8, 16) for i in range(8)],
              'every pair of subsets of 5 tokens, signatures of 1 to 16 integers, every number of bands, radii, two seeds')
def mh_pairs(unit, cx):
    h, r = unit
    ss = [tuple('tok%s' % c for c in s) for s in subsets('abcde')]
    for x in ss[r::8]:
        for y in ss:
            for seed in (1, 2) if h <= 4 else (3,):
                for bands in ([None] + list(range(1, h + 1)) if h <= 5 else [None, 1, 3, h // 2, h]):
                    mh(cx, (x, y), h, bands, 0.5, seed)
            for radius in (0.05, 0.2, 0.8, 1.0):
                mh(cx, (x, y), h, None, radius, 1)


@check.family('minhash, triples and strings', lambda t: list(range(16)),
              'every triple of subsets of 4 tokens; strings as characters without a key; numpy signatures')
def mh_triples(unit, cx):
    ss = list(subsets('abcd'))
    for recs in list(itertools.product(ss, repeat=3))[unit::16]:
        mh(cx, recs, 4, 2, 0.5, 7)
        mh(cx, tuple(''.join(r) for r in recs), 4, 4, 1 / 3, 7)
    for recs in list(itertools.product(ss, repeat=2))[unit::16]:
        mh(cx, recs, 8, 4, 0.5, 7, True)
        mh(cx, recs, 8, None, 0.5, 7, True)
        a, b = ''.join(recs[0]), ''.join(recs[1]) + 'aa' * (unit % 2)
        if a != b and a and b:
            cx.at(('minhash strings', a, b))
            got = [sorted(c) for c in minhash(iter([a, b]), h=16, radius=0.6, seed=3)]
            if set(a) == set(b):
                cx.same(got, [sorted([a, b])], 'minhash([%r, %r]): same characters' % (a, b))
            elif len(set(a) & set(b)) / len(set(a) | set(b)) < 0.6:
                cx.same(got, [], 'minhash([%r, %r]): dissimilar' % (a, b))


@check.family('minhash, populations', lambda t: [(h, s) for h in (16, 64, 256) for s in (0, 1, 2, 3)],
              '60 (and 1001) items of overlapping tokens, default bands, explicit bands, several seeds')
def mh_pop(unit, cx):
    h, seed = unit
    recs = [tuple('t%d' % (i // 2 * 3 + k) for k in range(2 + i % 5)) for i in range(60)]
    if seed == 1 and h <= 64:
        many = [tuple('t%d' % (i // 2 * 3 + k) for k in range(2 + i % 5)) for i in range(1001)]
        for radius in (0.3, 0.8):
            mh(cx, many, h, None, radius, seed)
    for bands in (None, 1, h // 4, h):
        for radius in (0.3, 0.6, 0.8, 1.0):
            mh(cx, recs, h, bands, radius, seed)
    for n in (0, 1):
        cx.at(('minhash', n))
        cx.same(list(minhash(recs[:n], h=h, seed=seed)), [], 'minhash of %d items' % n)


@check.family('scores', lambda t: [(a, m, i) for a in ALGOS for m in ('connected_components', 'fuzzy_clusters') for i in range(8)],
              'three items, every pair of 21 scores and every of 21 radii, as similarities and as distances, k 2 and 5, both modes, two seeds')
def scores(unit, cx):
    a, mode, r = unit
    values = [v for v in clus.SCORES if v != clus.INF]
    for q, (name, kw, edges) in enumerate(clus.scored(values)):
        if q % 8 != r or 'radius' not in kw:
            continue
        kw = dict(kw)
        radius = kw.pop('radius')
        for k in (2, 5):
            for seed in (1, 2):
                cx.at((a, mode, name, k, seed))
                got = [list(c) for c in ALGOS[a](range(3), radius, k=k, seed=seed, mode=mode, **kw)]
                judge(cx, '%s of %s, k %d, seed %d, %s' % (a, name, k, seed, mode), 3, edges, got, mode, k, ())
