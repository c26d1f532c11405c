import itertools

from vp import seams
from vp.core import Check
seams.install()
from checks import clus
from fog.clustering import blocking

check = Check(
    'C15', 'exhaustive enumeration of block assignments and similarity relations on the real clusterer against '
    'brute force over pairs sharing a block',
    'Every assignment of up to 4 items to subsets of 3 blocks and every similarity relation on them, single and '
    'multiple blocks, both modes, all size bounds.',
    ['items are distinct and hashable; the similarity function is symmetric'])


def judge(cx, what, n, edges, got, mode, mn, mx):
    cx.checked += 1
    if mode == 'connected_components':
        c = clus.as_counter(got)
        want = clus.expect_components(n, edges, mn, mx)
        if c != want:
            cx.fail('%s: %s, expected %s' % (what, got, sorted(map(sorted, want.elements()))))
    else:
        bad = clus.fuzzy_problem(n, edges, got, mn, mx)
        if bad:
            cx.fail('%s: %s' % (what, bad))
    cx.outcomes[(mode, frozenset(map(frozenset, got)))] = 1


MODES = ('connected_components', 'fuzzy_clusters')


def go(cx, n, rel, assign, many, mode, mn=2, mx=clus.INF, data=None, kind='similarity'):
    sim = lambda a, b: a == b or (a, b) in rel or (b, a) in rel
    share = (lambda a, b: set(assign[a]) & set(assign[b])) if many else (lambda a, b: assign[a] == assign[b])
    edges = frozenset((i, j) for i, j in itertools.combinations(range(n), 2) if (i, j) in rel and share(i, j))
    kw = {'blocks' if many else 'block': lambda x: assign[x]}
    if kind == 'similarity':
        kw['similarity'] = sim
    elif kind == 'distance':
        kw['distance'] = lambda a, b: not sim(a, b)
    elif kind == 'distance radius':
        kw['distance'] = lambda a, b: 2 if sim(a, b) else 3
        kw['radius'] = 2
    elif kind == 'zero radius':
        kw['distance'] = lambda a, b: 0 if sim(a, b) else 1
        kw['radius'] = 0
    else:
        kw['similarity'] = lambda a, b: 0.5 if sim(a, b) else 0.25
        kw['radius'] = 0.5
    what = 'blocking of %d items, similar pairs %s, blocks %s, %s, mode %s, sizes %s %s, %s' % (
        n, sorted(rel), assign, 'blocks' if many else 'block', mode, mn, mx, kind)
    cx.at(what)
    got = [list(c) for c in blocking(list(range(n)) if data is None else data(n), min_size=mn, max_size=mx, mode=mode, **kw)]
    judge(cx, what, n, edges, got, mode, mn, mx)


@check.family('one block per item', lambda t: [(n, i) for n in range(0, 5 if t == 'quick' else 6) for i in range(16)],
              'every relation and every partition into blocks of up to 4 (thorough 5) items, both modes, size bounds')
def single(unit, cx):
    n, r = unit
    for assign in list(itertools.product(range(3), repeat=n))[r::16]:
        for rel in clus.all_graphs(n):
            for mode in MODES:
                for mn, mx in ((2, clus.INF), (3, clus.INF), (2, 2)):
                    go(cx, n, rel, assign, False, mode, mn, mx)


@check.family('several blocks per item', lambda t: [(n, i) for n in range(0, 5) for i in range(64)],
              'every relation and every assignment of up to 3 items to subsets of 3 blocks, of 4 items to subsets of 2 '
              '(thorough 3) blocks, both modes')
def several(unit, cx):
    n, r = unit
    nb = 3 if n < 4 or cx.tier != 'quick' else 2
    subs = [tuple(b for b in range(nb) if m >> b & 1) for m in range(1 << nb)]
    for assign in list(itertools.product(subs, repeat=n))[r::64]:
        for rel in clus.all_graphs(n):
            for mode in MODES:
                go(cx, n, rel, assign, True, mode)


@check.family('sizes, repeats, ways to state the similarity, containers', lambda t: list(range(16)),
              '4 items, subsets of 2 blocks with repeated blocks, generators of blocks, all relations, all ways to state the similarity')
def variants(unit, cx):
    n = 4
    shapes = [('a',), ('a', 'a'), ('b', 'a'), ('a', 'b', 'a', 'b')]
    for assign in list(itertools.product(shapes, repeat=n))[unit::16]:
        for mask in range(0, 64, 3):
            rel = clus.graph_mask(n, mask)
            for kind in ('similarity', 'distance', 'distance radius', 'similarity radius', 'zero radius'):
                go(cx, n, rel, assign, True, 'connected_components', kind=kind, data=lambda n: (x for x in range(n)))
            for mode in MODES:
                for mn, mx in ((3, clus.INF), (2, 2), (2, 3)):
                    go(cx, n, rel, assign, True, mode, mn, mx, data=lambda n: tuple(range(n)))


@check.family('large blocks', lambda t: [63, 64, 65, 100, 101, 128, 129, 257, 513, 1001],
              'one block of n items and n blocks of 2, chains and cliques')
def large(unit, cx):
    n = unit
    for name, rel in (('chain', frozenset((i, i + 1) for i in range(n - 1))), ('ends', frozenset([(0, n - 1)])),
                      ('pairs', frozenset((i, i + 1) for i in range(0, n - 1, 2)))):
        for mode in MODES:
            go(cx, n, rel, ['all'] * n, False, mode)
            go(cx, n, rel, [('all', i) for i in range(n)], True, mode)
            go(cx, n, rel, [(i, i + 1) for i in range(n)], True, mode)
            go(cx, n, rel, [i // 2 for i in range(n)], False, mode)


@check.family('look-alike blocks and items', lambda t: list(range(len(clus.KEYS))),
              'every pair of 38 blocks easily mixed up (equal hashes, texts, falsy, equal across types) over items easily mixed up, every relation of 3 items')
def alike(unit, cx):
    a = clus.KEYS[unit]
    for b in clus.KEYS:
        for r in range(0, len(clus.ITEMS), 4):
            items = (clus.ITEMS[r:] + clus.ITEMS[:r])[:3]
            pos = lambda x: next(i for i, y in enumerate(items) if y is x)
            for many, assign in ((False, (a, b, a)), (False, (b, b, a)), (True, ((a, 'z'), (b,), (a,))), (True, ((a,), (), (b, a)))):
                share = (lambda i, j: set(assign[i]) & set(assign[j])) if many else (lambda i, j: assign[i] == assign[j])
                for mask in (7, 3, 5, 6) if b == a else (7,):
                    rel = clus.graph_mask(3, mask)
                    edges = frozenset((i, j) for i, j in itertools.combinations(range(3), 2) if (i, j) in rel and share(i, j))
                    for mode in MODES:
                        what = 'blocking of %r, blocks %r, similar %s, %s' % (items, assign, sorted(rel), mode)
                        cx.at(what)
                        got = [[pos(x) for x in c] for c in blocking(
                            items, similarity=lambda x, y: x is y or (pos(x), pos(y)) in rel or (pos(y), pos(x)) in rel, mode=mode,
                            **{'blocks' if many else 'block': lambda x: assign[pos(x)]})]
                        judge(cx, what, 3, edges, got, mode, 2, clus.INF)


@check.family('scores', lambda t: list(range(8)),
              'three items sharing one or two blocks, every score and radius among %d values easily mixed up by rounding or truncation, '
              'every truth value without radius, similarity and distance, both modes' % len(clus.SCORES))
def scores(unit, cx):
    for what, kw, edges in itertools.islice(clus.scored(), unit, None, 8):
        for mode in MODES:
            for blk in (dict(block=lambda x: 'b'), dict(blocks=lambda x: ('b', 'c'))):
                cx.at((what, mode, list(blk)))
                judge(cx, 'blocking with %s, scores %r, mode %s' % (list(blk)[0], what, mode), 3, edges, [list(c) for c in blocking([0, 1, 2], mode=mode, **blk, **kw)], mode, 2, clus.INF)


@check.family('chains', lambda t: [400, 1200, 2500] if t == 'quick' else [400, 1200, 2500, 6000],
              'chains of 400 to 2500 (thorough 6000) items, each similar to the next only, in 3 orders: one cluster')
def chains(unit, cx):
    for order in (range(unit), range(unit - 1, -1, -1), sorted(range(unit), key=lambda i: (i * 7919 % unit, i))):
        cx.at(('chain', unit, order[0], order[1]))
        got = [sorted(c) for c in blocking(list(order), block=lambda x: 0, distance=lambda a, b: abs(a - b), radius=1)]
        cx.expect(got == [list(range(unit))], 'a chain of %d items, each similar to the next, is not one cluster: %s' % (unit, [len(c) for c in got]))
    for order in (range(unit), range(unit - 1, -1, -1), sorted(range(unit), key=lambda i: (i * 7919 % unit, i))):
        cx.at(('chain', unit, order[0], order[1]))
        got = [sorted(c) for c in blocking(iter(order), blocks=lambda x: (x, x + 1), similarity=lambda a, b: True)]
        cx.expect(got == [list(range(unit))], 'a chain of %d items, each similar to the next, is not one cluster: %s' % (unit, [len(c) for c in got]))
