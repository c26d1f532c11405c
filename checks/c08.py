import itertools

from vp.core import Check
from checks import clus
from checks.c07 import big_shapes
from fog.clustering import pairwise, pairwise_leader, pairwise_fuzzy_clusters

check = Check(
    'C08', 'exhaustive enumeration of similarity relations (all labelled graphs) on the real clusterers against '
    'the leader algorithm and the fuzzy cluster conditions',
    'Every similarity relation on up to 6 (thorough 7) items with all size bounds and ways of stating the '
    'similarity, plus large structured relations. Fuzzy clusters are judged up to the free choice of leaders.',
    ['the similarity function is symmetric, deterministic and does not depend on the call order'])


def leader(cx, n, edges, mn, mx, name, call, what=''):
    want = clus.leader_reference(n, edges, mn, mx)
    cx.at(('leader', name, n, sorted(edges), mn, mx, what))
    got = [list(c) for c in call()]
    c = clus.as_counter(got)
    cx.checked += 1
    if c != want:
        cx.fail('leader clusters (%s) of %d items with similar pairs %s, min_size=%s max_size=%s: %s, expected %s'
                % (name, n, sorted(edges), mn, mx, got, sorted(map(sorted, want.elements()))))
    cx.outcomes[('l', frozenset(c.items()))] = 1


def fuzzy(cx, n, edges, mn, mx, name, call, what=''):
    cx.at(('fuzzy', name, n, sorted(edges), mn, mx, what))
    got = [list(c) for c in call()]
    bad = clus.fuzzy_problem(n, edges, got, mn, mx)
    cx.checked += 1
    if bad:
        cx.fail('fuzzy clusters (%s) of %d items with similar pairs %s, min_size=%s max_size=%s: %s'
                % (name, n, sorted(edges), mn, mx, bad))
    cx.outcomes[('f', frozenset(map(frozenset, got)))] = 1


@check.family('all similarity relations', lambda t: [(n, m, 64) for n in range(0, 7 if t == 'quick' else 8) for m in range(64)],
              lambda t: 'every labelled graph on up to %d items x size bounds %r' % (6 if t == 'quick' else 7, clus.SIZES))
def graphs(unit, cx):
    n, r, mod = unit
    total = 1 << (n * (n - 1) // 2)
    for mask in range(r, total, mod):
        edges = clus.graph_mask(n, mask)
        data = list(range(n))
        sim = lambda a, b: a == b or (a, b) in edges or (b, a) in edges
        for mn, mx in clus.SIZES:
            leader(cx, n, edges, mn, mx, 'similarity', lambda: pairwise_leader(data, similarity=sim, min_size=mn, max_size=mx))
            fuzzy(cx, n, edges, mn, mx, 'similarity', lambda: pairwise_fuzzy_clusters(data, similarity=sim, min_size=mn, max_size=mx))


@check.family('every way to state the similarity', lambda t: list(range(27)),
              'every assignment of values {0, 1, 2} to the pairs of 4 items, as similarity or distance, with and '
              'without radius (0, 1, 2), with and without key, from list, tuple, generator')
def ways(unit, cx):
    n = 4
    prs = list(itertools.combinations(range(n), 2))
    allv = list(itertools.product((0, 1, 2), repeat=6))
    for vals in allv[unit::27]:
        v = dict(zip(prs, vals))
        val = lambda a, b: v[(a, b) if a < b else (b, a)]
        for radius in (None, 0, 1, 2):
            for kind in ('similarity', 'distance'):
                if radius is None:
                    edges = frozenset(p for p in prs if bool(v[p]) == (kind == 'similarity'))
                elif kind == 'similarity':
                    edges = frozenset(p for p in prs if v[p] >= radius)
                else:
                    edges = frozenset(p for p in prs if v[p] <= radius)
                kw = {kind: (lambda a, b: (2 if kind == 'similarity' else 0) if a == b else val(a, b))}
                if radius is not None:
                    kw['radius'] = radius
                base = list(range(n))
                w = (kind, radius, vals)
                for name, call in (
                        ('list', lambda: pairwise_leader(base, **kw)),
                        ('generator', lambda: pairwise_leader(iter(base), **kw)),
                        ('mode', lambda: pairwise(tuple(base), mode='leader', **kw))):
                    leader(cx, n, edges, 2, clus.INF, name, call, w)
                for name, call in (
                        ('list', lambda: pairwise_fuzzy_clusters(base, **kw)),
                        ('generator', lambda: pairwise_fuzzy_clusters(iter(base), **kw)),
                        ('mode', lambda: pairwise(tuple(base), mode='fuzzy_clusters', **kw)),
                        ('key', lambda: ([x[1] for x in c] for c in pairwise_fuzzy_clusters(
                            [('k', x) for x in base], key=lambda t: t[1], **kw)))):
                    fuzzy(cx, n, edges, 2, clus.INF, name, call, w)
                cx.expect(base == list(range(n)), 'the data given was modified')


@check.family('repeated and unhashable items', lambda t: list(range(16)),
              'all sequences of length <= 5 over 3 values (each similar to itself) x all relations on the values, '
              'items unhashable')
def repeated(unit, cx):
    seqs = [s for n in range(0, 6) for s in itertools.product(range(3), repeat=n)]
    for s in seqs[unit::16]:
        for rel in clus.all_graphs(3):
            sim = lambda a, b: a == b or (a, b) in rel or (b, a) in rel
            n = len(s)
            edges = frozenset((i, j) for i, j in itertools.combinations(range(n), 2) if sim(s[i], s[j]))
            want = clus.multiset([[s[i] for i in c] for c in clus.leader_reference(n, edges).elements()])
            cx.at((s, sorted(rel)), 3)
            cx.same(clus.multiset(pairwise_leader(list(s), similarity=sim)), want, 'repeated values %r' % (s,))
            # items carry their position, so that fuzzy clusters can be read back, and are unhashable
            items = [[i, x] for i, x in enumerate(s)]
            got = [[x[0] for x in c] for c in pairwise_leader(items, similarity=lambda a, b: sim(a[1], b[1]))]
            cx.same(clus.as_counter(got), clus.leader_reference(n, edges), 'unhashable %r' % (s,))
            got = [[x[0] for x in c] for c in pairwise_fuzzy_clusters(items, similarity=lambda a, b: sim(a[1], b[1]))]
            bad = clus.fuzzy_problem(n, edges, got)
            cx.expect(bad is None, 'fuzzy, repeated values %r: %s' % (s, bad))


@check.family('large relations', lambda t: list(big_shapes(t)), 'chains, stars, blocks on up to 1001 (thorough 5001) items')
def large(unit, cx):
    name, n, edges = unit
    data = list(range(n))
    sim = lambda a, b: a == b or (a, b) in edges or (b, a) in edges
    for mn, mx in ((2, clus.INF), (3, clus.INF), (2, 3), (n, n), (2, n - 1))[:5 if n < 300 else 2]:
        leader(cx, n, edges, mn, mx, name, lambda: pairwise_leader(data, similarity=sim, min_size=mn, max_size=mx))
        fuzzy(cx, n, edges, mn, mx, name, lambda: pairwise_fuzzy_clusters(data, similarity=sim, min_size=mn, max_size=mx))


@check.family('look-alike items', lambda t: list(range(len(clus.ITEMS))),
              'every relation of 4 items easily mixed up (falsy, equal hashes, equal texts) and of unhashable items')
def alike(unit, cx):
    for items in ((clus.ITEMS[unit:] + clus.ITEMS[:unit])[:4], [[], {}, [unit], set()]):
        pos = lambda x: next(i for i, y in enumerate(items) if y is x)
        for edges in clus.all_graphs(4):
            sim = lambda a, b: a is b or (pos(a), pos(b)) in edges or (pos(b), pos(a)) in edges
            for mn, mx in ((2, clus.INF), (3, clus.INF), (2, 2)):
                leader(cx, 4, edges, mn, mx, 'look-alike', lambda: [[pos(x) for x in c] for c in pairwise_leader(items, similarity=sim, min_size=mn, max_size=mx)], repr(items))
                fuzzy(cx, 4, edges, mn, mx, 'look-alike', lambda: [[pos(x) for x in c] for c in pairwise_fuzzy_clusters(items, similarity=sim, min_size=mn, max_size=mx)], repr(items))


@check.family('scores', lambda t: list(range(8)),
              'three items, every score and radius among %d values easily mixed up by rounding or truncation, every truth value '
              'without radius, similarity and distance' % len(clus.SCORES))
def scores(unit, cx):
    for what, kw, edges in itertools.islice(clus.scored(), unit, None, 8):
        leader(cx, 3, edges, 2, clus.INF, 'scores', lambda: pairwise_leader([0, 1, 2], **kw), what)
        fuzzy(cx, 3, edges, 2, clus.INF, 'scores', lambda: pairwise_fuzzy_clusters([0, 1, 2], **kw), what)
        fuzzy(cx, 3, edges, 2, clus.INF, 'key', lambda: [[int(x) for x in c] for c in pairwise_fuzzy_clusters('012', key=int, **kw)], what)


@check.family('look-alike keys', lambda t: list(range(len(clus.ITEMS))),
              'every relation of 4 items whose keys are easily mixed up (falsy, equal hashes, equal texts), fuzzy clusters')
def alike_keys(unit, cx):
    for items in ((clus.ITEMS[unit:] + clus.ITEMS[:unit])[:4], [[], {}, [unit], set()]):
        pos = lambda x: next(i for i, y in enumerate(items) if y is x)
        for edges in clus.all_graphs(4):
            sim = lambda a, b: a is b or (pos(a), pos(b)) in edges or (pos(b), pos(a)) in edges
            fuzzy(cx, 4, edges, 2, clus.INF, 'key', lambda: pairwise_fuzzy_clusters(range(4), key=items.__getitem__, similarity=sim), repr(items))
