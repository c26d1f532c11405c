import itertools

from vp.core import Check
from checks import clus
from fog.clustering import pairwise, pairwise_connected_components

check = Check(
    'C07', 'exhaustive enumeration of similarity relations (all labelled graphs) on the real clusterer against '
    'graph reachability',
    'Every similarity relation on up to 6 (thorough 7) items with all size bounds and ways of stating the '
    'similarity, plus large structured relations.',
    ['the similarity function is symmetric, deterministic and does not depend on the call order'])


def run(cx, n, edges, mn, mx, forms, what):
    want = clus.expect_components(n, edges, mn, mx)
    for name, mk in forms:
        cx.at((name, n, sorted(edges), mn, mx, what))
        got = [[x for x in c] for c in mk()]
        c = clus.as_counter(got)
        cx.checked += 1
        if c != want:
            cx.fail('%s on %d items with similar pairs %s, min_size=%s max_size=%s: %s, expected %s'
                    % (name, n, sorted(edges), mn, mx, got, sorted(map(sorted, want.elements()))))
        cx.outcomes[frozenset(c.items())] = 1


def forms_for(n, edges, mn, mx):
    data = list(range(n))
    sim = lambda a, b: a == b or (a, b) in edges or (b, a) in edges
    yield 'similarity', lambda: pairwise_connected_components(data, similarity=sim, min_size=mn, max_size=mx)


@check.family('all similarity relations', lambda t: [(n, m, 64) for n in range(0, 7 if t == 'quick' else 8) for m in range(64)],
              lambda t: 'every labelled graph on up to %d items x size bounds %r' % (6 if t == 'quick' else 7, clus.SIZES + [(1, clus.INF), (1, 1)]))
def graphs(unit, cx):
    n, r, mod = unit
    total = 1 << (n * (n - 1) // 2)
    for mask in range(r, total, mod):
        edges = clus.graph_mask(n, mask)
        for mn, mx in clus.SIZES + [(1, clus.INF), (1, 1)]:
            run(cx, n, edges, mn, mx, forms_for(n, edges, mn, mx), '')


@check.family('every way to state the similarity', lambda t: list(range(27)),
              'every assignment of values {0, 1, 2} to the pairs of 4 items, as similarity or distance, with and '
              'without radius (0, 1, 2), with and without key, from list, tuple, generator')
def ways(unit, cx):
    n = 4
    prs = list(itertools.combinations(range(n), 2))
    allv = list(itertools.product((0, 1, 2), repeat=6))
    for vals in allv[unit::27]:
        v = dict(zip(prs, vals))
        val = lambda a, b: v[(a, b) if a < b else (b, a)]
        for radius in (None, 0, 1, 2):
            for kind in ('similarity', 'distance'):
                if radius is None:
                    edges = frozenset(p for p in prs if bool(v[p]) == (kind == 'similarity'))
                elif kind == 'similarity':
                    edges = frozenset(p for p in prs if v[p] >= radius)
                else:
                    edges = frozenset(p for p in prs if v[p] <= radius)
                kw = {kind: (lambda a, b: (2 if kind == 'similarity' else 0) if a == b else val(a, b))}
                if radius is not None:
                    kw['radius'] = radius
                base = list(range(n))
                kept = list(base)
                forms = [
                    ('list', lambda: pairwise_connected_components(base, **kw)),
                    ('generator', lambda: pairwise_connected_components((x for x in base), **kw)),
                    ('mode', lambda: pairwise(tuple(base), mode='connected_components', **kw)),
                    ('default mode', lambda: pairwise(base, **kw)),
                    ('key', lambda: ([x[1] for x in c] for c in pairwise_connected_components(
                        [('k', x) for x in base], key=lambda t: t[1], **kw))),
                ]
                run(cx, n, edges, 2, clus.INF, forms, (kind, radius, vals))
                cx.expect(base == kept, 'the data given was modified')


@check.family('repeated and unhashable items', lambda t: list(range(16)),
              'all sequences of length <= 5 over 3 values (each similar to itself) x all relations on the values; '
              'unhashable items')
def repeated(unit, cx):
    seqs = [s for n in range(0, 6) for s in itertools.product(range(3), repeat=n)]
    for s in seqs[unit::16]:
        for rel in clus.all_graphs(3):
            sim = lambda a, b: a == b or (a, b) in rel or (b, a) in rel
            n = len(s)
            edges = frozenset((i, j) for i, j in itertools.combinations(range(n), 2) if sim(s[i], s[j]))
            want = clus.multiset([[s[i] for i in c] for c in clus.expect_components(n, edges).elements()])
            cx.at((s, sorted(rel)), 2)
            got = clus.multiset(pairwise_connected_components(list(s), similarity=sim))
            cx.same(got, want, 'repeated values %r, relation %r' % (s, sorted(rel)))
            got = clus.multiset([[x[0] for x in c] for c in pairwise_connected_components(
                [[x] for x in s], similarity=lambda a, b: sim(a[0], b[0]))])
            cx.same(got, want, 'unhashable items %r, relation %r' % (s, sorted(rel)))
            cx.outcomes[frozenset(want.items())] = 1


def big_shapes(t):
    for n in (30, 63, 64, 65, 99, 100, 101, 128, 200, 257, 513, 1001) + ((2049, 5001) if t != 'quick' else ()):
        yield 'chain', n, frozenset((i, i + 1) for i in range(n - 1))
        yield 'shuffled chain', n, frozenset(tuple(sorted(((7 * i) % n, (7 * (i + 1)) % n))) for i in range(n - 1) if (7 * i) % n != (7 * i + 7) % n)
        yield 'star from the end', n, frozenset((i, n - 1) for i in range(n - 1))
        yield 'two far ends', n, frozenset([(0, n - 1)])
        yield 'middle', n, frozenset([(n // 2 - 1, n // 2), (0, n // 2), (n // 2, n - 1)])
        yield 'blocks of 3', n, frozenset((i, j) for i in range(n) for j in range(i + 1, n) if i // 3 == j // 3)
        yield 'residues', n, frozenset((i, i + 10) for i in range(n - 10))
        yield 'empty', n, frozenset()


@check.family('large relations', lambda t: list(big_shapes(t)), 'chains, stars, blocks on up to 1001 (thorough 5001) items')
def large(unit, cx):
    name, n, edges = unit
    for mn, mx in ((2, clus.INF), (3, clus.INF), (2, 3), (n, n), (2, n - 1))[:5 if n < 300 else 2]:
        run(cx, n, edges, mn, mx, forms_for(n, edges, mn, mx), name)


@check.family('look-alike items', lambda t: list(range(len(clus.ITEMS))),
              'every relation of 4 items easily mixed up (falsy, equal hashes, equal texts) and of unhashable items')
def alike(unit, cx):
    for items in ((clus.ITEMS[unit:] + clus.ITEMS[:unit])[:4], [[], {}, [unit], set()]):
        pos = lambda x: next(i for i, y in enumerate(items) if y is x)
        for edges in clus.all_graphs(4):
            sim = lambda a, b: a is b or (pos(a), pos(b)) in edges or (pos(b), pos(a)) in edges
            back = lambda call: [[pos(x) for x in c] for c in call()]
            run(cx, 4, edges, 2, clus.INF, [(repr(items), lambda: back(lambda: pairwise_connected_components(items, similarity=sim))),
                                            (repr(items), lambda: back(lambda: pairwise(iter(items), similarity=sim)))], repr(items))


@check.family('scores', lambda t: list(range(8)),
              'three items, every score and radius among %d values easily mixed up by rounding or truncation, every truth value '
              'without radius, similarity and distance' % len(clus.SCORES))
def scores(unit, cx):
    for what, kw, edges in itertools.islice(clus.scored(), unit, None, 8):
        run(cx, 3, edges, 2, clus.INF, [('scores', lambda: pairwise_connected_components([0, 1, 2], **kw)),
                                        ('key', lambda: [[int(x) for x in c] for c in pairwise_connected_components('012', key=int, **kw)])], what)


@check.family('look-alike keys', lambda t: list(range(len(clus.ITEMS))),
              'every relation of 4 items whose keys are easily mixed up (falsy, equal hashes, equal texts)')
def alike_keys(unit, cx):
    for items in ((clus.ITEMS[unit:] + clus.ITEMS[:unit])[:4], [[], {}, [unit], set()]):
        pos = lambda x: next(i for i, y in enumerate(items) if y is x)
        for edges in clus.all_graphs(4):
            sim = lambda a, b: a is b or (pos(a), pos(b)) in edges or (pos(b), pos(a)) in edges
            run(cx, 4, edges, 2, clus.INF, [('key', lambda: pairwise_connected_components(range(4), key=items.__getitem__, similarity=sim))], repr(items))


@check.family('chains', lambda t: [400, 1200, 2500] if t == 'quick' else [400, 1200, 2500, 6000],
              'chains of 400 to 2500 (thorough 6000) items, each similar to the next only, in 3 orders: one cluster')
def chains(unit, cx):
    for order in (range(unit), range(unit - 1, -1, -1), sorted(range(unit), key=lambda i: (i * 7919 % unit, i))):
        cx.at(('chain', unit, order[0], order[1]))
        got = [sorted(c) for c in pairwise_connected_components(list(order), distance=lambda a, b: abs(a - b), radius=1)]
        cx.expect(got == [list(range(unit))], 'a chain of %d items, each similar to the next, is not one cluster: %s' % (unit, [len(c) for c in got]))
