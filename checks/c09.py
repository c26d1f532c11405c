import itertools

from vp import seams
from vp.core import Check
seams.install()
from checks import clus
from checks.c12_common import metrics
from fog.clustering import (pairwise, pairwise_connected_components, pairwise_fuzzy_clusters, blocking, quickjoin)

check = Check(
    'C09', 'exhaustive enumeration of worker completion orders, chunk sizes and similarity relations on the real '
    'clusterers over a controlled pool, with runs on genuine process pools to validate the pool model',
    'All completion orders (up to 5 work units; otherwise all with at most 2 departures from submission order), '
    'task iterator read eagerly and lazily; the pool stand-in serialises payloads and results as a real pool does.',
    ['workers are deterministic functions of their payload and share no state, as separate processes do',
     'the pool is obtained from multiprocessing.Pool'])

C = seams.CONTROL


def judge(cx, what, n, edges, got, mode, mn=2, mx=clus.INF):
    cx.checked += 1
    if mode == 'connected_components':
        c = clus.as_counter(got)
        want = clus.expect_components(n, edges, mn, mx)
        if c != want:
            cx.fail('%s: %s, expected %s' % (what, got, sorted(map(sorted, want.elements()))))
    else:
        bad = clus.fuzzy_problem(n, edges, got, mn, mx)
        if bad:
            cx.fail('%s: %s' % (what, bad))
    cx.outcomes[(mode, frozenset(map(frozenset, got)))] = 1


def schedules(cx, what, n, edges, call, mode, mn=2, mx=clus.INF, bound=2, eager=(True, False), same=False):
    """Run `call` under every completion order; with `same`, its clusters may not depend on it."""
    seen = []
    for e in eager:
        C.eager = e

        def one(ch):
            perm = []

            def order(k):
                left = list(range(k))
                while left:
                    perm.append(left.pop(ch.choose(len(left))))
                return list(perm)
            C.order = order
            cx.at((what, 'eager' if e else 'lazy', 'choices', list(ch.prefix)))
            try:
                got = [list(c) for c in call()]
            finally:
                C.order = None
            judge(cx, '%s, completion order %s' % (what, perm), n, edges, got, mode, mn, mx)
            if same:
                now = clus.as_counter(got)
                if seen and seen[0] != now:
                    cx.fail('%s, completion order %s: %s, but other clusters in another order: %s' % (what, perm, got, sorted(map(sorted, seen[0].elements()))))
                seen[:] = [now]
        ch = seams.Chooser()
        C.last_tasks = 0
        one(ch)
        if C.last_tasks > 1:
            if C.last_tasks <= 5:
                seams.executions(one)
            else:
                seams.deviations(one, bound)
    C.eager = True


def relation(edges):
    return lambda a, b: a == b or (a, b) in edges or (b, a) in edges


@check.family('pairwise connected components', lambda t: [(n, i) for n in range(0, 6) for i in range(32)],
              'every relation on up to 4 items and a fourth (thorough: all) of those on 5, chunk sizes 1-6, processes 2, all completion orders')
def cc(unit, cx):
    n, r = unit
    total = 1 << (n * (n - 1) // 2)
    step = 4 if n == 5 and cx.tier == 'quick' else 1
    for mask in list(range(0, total, step))[r::32]:
        edges = clus.graph_mask(n, mask)
        sim = relation(edges)
        for chunk in range(1, n + 2):
            schedules(cx, 'pairwise_connected_components of %d items, similar pairs %s, chunk_size %d' % (n, sorted(edges), chunk),
                      n, edges, lambda: pairwise_connected_components(list(range(n)), similarity=sim, processes=2, chunk_size=chunk),
                      'connected_components', bound=1, eager=(True,) if n == 5 else (True, False))


@check.family('pairwise fuzzy clusters', lambda t: [(n, i) for n in range(0, 6 if t == 'quick' else 7) for i in range(32)],
              'every relation on up to 5 items (thorough: 6), chunk sizes 1-6, processes 2')
def fz(unit, cx):
    n, r = unit
    total = 1 << (n * (n - 1) // 2)
    for mask in range(r, total, 32):
        edges = clus.graph_mask(n, mask)
        sim = relation(edges)
        for chunk in range(1, n + 2):
            schedules(cx, 'pairwise_fuzzy_clusters of %d items, similar pairs %s, chunk_size %d' % (n, sorted(edges), chunk),
                      n, edges, lambda: pairwise_fuzzy_clusters(list(range(n)), similarity=sim, processes=2, chunk_size=chunk),
                      'fuzzy_clusters', bound=1, eager=(True,), same=True)


@check.family('every chunk boundary', lambda t: [(n, c) for n in (1, 2, 3, 4, 7, 8, 9, 12, 13) for c in range(1, 15)],
              'every single pair (i, j) of 1-13 items as the only similar pair, chunk sizes 1-14, with keys, sizes and distances')
def boundaries(unit, cx):
    n, chunk = unit
    C.order = None
    for pair in itertools.combinations(range(n), 2):
        edges = frozenset([pair])
        sim = relation(edges)
        cx.at((n, chunk, pair), 3)
        for call, mode in (
                (lambda: pairwise_connected_components(list(range(n)), similarity=sim, processes=3, chunk_size=chunk), 'connected_components'),
                (lambda: pairwise(tuple(range(n)), mode='fuzzy_clusters', distance=lambda a, b: 0 if sim(a, b) else 3, radius=2, processes=2, chunk_size=chunk), 'fuzzy_clusters'),
                (lambda: ([x[1] for x in c] for c in pairwise_connected_components(
                    [(0, i) for i in range(n)], key=lambda x: x[1], similarity=sim, processes=2, chunk_size=chunk)), 'connected_components')):
            judge(cx, 'parallel clustering of %d items, chunk_size %d, only similar pair %s' % (n, chunk, pair), n, edges,
                  [list(c) for c in call()], mode)
    edges = frozenset((i, i + 1) for i in range(n - 1) if i % 3)
    sim = relation(edges)
    for mn, mx in ((2, clus.INF), (3, clus.INF), (2, 2), (3, 3)):
        cx.at((n, chunk, 'sizes', mn, mx), 2)
        judge(cx, 'cc %d %d sizes' % unit, n, edges, [list(c) for c in pairwise_connected_components(
            list(range(n)), similarity=sim, processes=2, chunk_size=chunk, min_size=mn, max_size=mx)], 'connected_components', mn, mx)
        judge(cx, 'fuzzy %d %d sizes' % unit, n, edges, [list(c) for c in pairwise_fuzzy_clusters(
            list(range(n)), similarity=sim, processes=2, chunk_size=chunk, min_size=mn, max_size=mx)], 'fuzzy_clusters', mn, mx)


@check.family('repeated items and keys', lambda t: [(n, i) for n in range(2, 6 if t == 'quick' else 7) for i in range(8)],
              'every list of up to 5 (thorough 6) items over 3 values, every relation between the values (a value may differ from itself), all chunk '
              'sizes; the values being the items or their keys')
def repeated(unit, cx):
    n, r = unit
    C.order = None
    rels = [(0, 0), (1, 1), (0, 1), (1, 2), (2, 2), (0, 2)]
    masks = range(1, 64, 1 if n < 5 or cx.tier != 'quick' else 6)
    for word in list(itertools.product(range(3), repeat=n))[r::8]:
        for mask in masks:
            rel = frozenset(p for k, p in enumerate(rels) if mask >> k & 1)
            sim = relation(rel)
            edges = frozenset((i, j) for i, j in itertools.combinations(range(n), 2) if sim(word[i], word[j]))
            values = clus.multiset([word[i] for i in c] for c in clus.expect_components(n, edges).elements())
            for chunk in range(1, n + 1):
                what = 'items %s, similar values %s, chunk_size %d' % (word, sorted(rel), chunk)
                cx.at(what, 3)
                cx.same(clus.multiset(pairwise_connected_components(list(word), similarity=sim, processes=2, chunk_size=chunk)), values, what)
                for f, mode in ((pairwise_connected_components, 'connected_components'), (pairwise_fuzzy_clusters, 'fuzzy_clusters')):
                    got = [list(c) for c in f(range(n), key=lambda i: word[i], similarity=sim, processes=2, chunk_size=chunk)]
                    judge(cx, 'keys of ' + what, n, edges, got, mode)


@check.family('default chunk size', lambda t: [99, 100, 101, 199, 200, 201, 202, 301],
              '99-301 items with the default chunk size: similar pairs at and across chunk boundaries')
def default_chunk(unit, cx):
    n = unit
    C.order = None
    marks = [x for x in (0, 1, 50, 98, 99, 100, 101, 150, 198, 199, 200, 201, 299, 300) if x < n]
    for edges in [frozenset([p]) for p in itertools.combinations(marks, 2)][::3] + [
            frozenset((i, i + 1) for i in range(n - 1)), frozenset((i, n - 1 - i) for i in range(n // 2))]:
        sim = relation(edges)
        cx.at((n, sorted(edges)[:5]), 2)
        judge(cx, 'default chunk, %d items, %s' % (n, sorted(edges)[:5]), n, edges, [list(c) for c in pairwise_connected_components(
            list(range(n)), similarity=sim, processes=2)], 'connected_components')
        judge(cx, 'default chunk, %d items, %s' % (n, sorted(edges)[:5]), n, edges, [list(c) for c in pairwise_fuzzy_clusters(
            list(range(n)), similarity=sim, processes=2)], 'fuzzy_clusters')


@check.family('blocking', lambda t: list(range(64)),
              '4 items in subsets of 3 blocks (a spread of assignments; thorough: all) x all relations, both modes, all completion orders')
def blk(unit, cx):
    n = 4
    subs = [('a',), ('b',), ('a', 'b'), ('a', 'b', 'c'), ('b', 'c'), ()]
    assigns = list(itertools.product(subs, repeat=n))
    assigns = assigns[::5] if cx.tier == 'quick' else assigns
    for assign in assigns[unit::64]:
        for mask in range(0, 64, 1 if cx.tier != 'quick' else 3):
            rel = clus.graph_mask(n, mask)
            sim = relation(rel)
            edges = frozenset(p for p in rel if set(assign[p[0]]) & set(assign[p[1]]))
            for mode in ('connected_components', 'fuzzy_clusters'):
                schedules(cx, 'blocking of %d items, similar pairs %s, blocks %s, %s' % (n, sorted(rel), assign, mode), n, edges,
                          lambda: blocking(list(range(n)), blocks=lambda x: assign[x], similarity=sim, processes=2, mode=mode), mode)
            one = [a[0] if a else 'z' for a in assign]
            edges = frozenset(p for p in rel if one[p[0]] == one[p[1]])
            schedules(cx, 'blocking of %d items, similar pairs %s, block %s' % (n, sorted(rel), one), n, edges,
                      lambda: blocking(list(range(n)), block=lambda x: one[x], similarity=sim, processes=2), 'connected_components')


@check.family('quickjoin', lambda t: list(range(64)),
              'every metric with distances 1..3 on 4 points (thorough: and 1..2 on 5), block size 2-4, seeds 1-2, plain and vantage point tree, all completion orders')
def qj(unit, cx):
    spaces = list(metrics(4, (1, 2, 3))) + (list(metrics(5, (1, 2))) if cx.tier != 'quick' else [])
    for D in spaces[unit::64]:
        n = len(D)
        dist = lambda a, b: D[a][b]
        for radius in (1, 2):
            edges = frozenset((i, j) for i, j in itertools.combinations(range(n), 2) if D[i][j] <= radius)
            for block, seed, vp, mode in ((2, 1, False, 'connected_components'), (3, 2, True, 'connected_components'), (2, 2, False, 'fuzzy_clusters'), (4, 1, True, 'connected_components')):
                schedules(cx, 'quickjoin of metric %s radius %d block_size %d seed %d vp_tree %s %s' % (D, radius, block, seed, vp, mode),
                          n, edges, lambda: quickjoin(list(range(n)), radius, distance=dist, block_size=block, seed=seed,
                                                      processes=2, vp_tree=vp, mode=mode), mode, bound=1)


@check.family('genuine process pools', lambda t: list(range(24)),
              'the same clusterers on real process pools (2 and 3 processes): every relation on 3 items and a spread of larger ones; '
              'validates the pool stand-in')
def real(unit, cx):
    C.mode = 'real'
    try:
        jobs = []
        for n, mask, chunk, procs in ([(3, m, 1 + m % 2, 2 + m % 2) for m in range(8)] + [(4, m, 2, 2) for m in range(5, 64, 11)] +
                                      [(6, m, 2, 3) for m in (77, 12345, 30001, 32767)]):
            edges = clus.graph_mask(n, mask)
            jobs.append(('cc', n, edges, chunk, procs))
            jobs.append(('fuzzy', n, edges, chunk, procs))
            jobs.append(('blocking', n, edges, chunk, procs))
        for d in list(metrics(4, (1, 2, 3)))[::97]:
            jobs.append(('quickjoin', 4, d, 2, 2))
        for kind, n, edges, chunk, procs in jobs[unit::24]:
            cx.at((kind, n, edges, chunk, procs, 'real pool'))
            if kind == 'quickjoin':
                D = edges
                es = frozenset((i, j) for i, j in itertools.combinations(range(n), 2) if D[i][j] <= 1)
                got = [list(c) for c in quickjoin(list(range(n)), 1, distance=lambda a, b: D[a][b], block_size=2, seed=3, processes=procs)]
                judge(cx, 'quickjoin on a real pool, metric %s' % (D,), n, es, got, 'connected_components')
                continue
            sim = relation(edges)
            if kind == 'cc':
                got = [list(c) for c in pairwise_connected_components(list(range(n)), similarity=sim, processes=procs, chunk_size=chunk)]
                judge(cx, 'real pool cc', n, edges, got, 'connected_components')
            elif kind == 'fuzzy':
                got = [list(c) for c in pairwise_fuzzy_clusters(list(range(n)), similarity=sim, processes=procs, chunk_size=chunk)]
                judge(cx, 'real pool fuzzy', n, edges, got, 'fuzzy_clusters')
            else:
                es = frozenset(p for p in edges if abs(p[0] - p[1]) <= 2)
                got = [list(c) for c in blocking(list(range(n)), blocks=lambda x: [x, x + 1, x + 2], similarity=sim, processes=procs)]
                judge(cx, 'real pool blocking', n, es, got, 'connected_components')
    finally:
        C.mode = 'model'


@check.family('scores', lambda t: [(k, i) for k in range(4) for i in range(16)],
              'three items, every pair of 22 scores and every of 22 radii, and every pair of 15 verdicts that are not booleans: parallel pairwise '
              '(both modes), blocking and quickjoin over a pool')
def scores(unit, cx):
    k, r = unit
    C.order = None
    for q, (name, kw, edges) in enumerate(clus.scored()):
        if q % 16 != r:
            continue
        cx.at((k, name))
        if k == 0:
            got, mode = pairwise_connected_components(range(3), processes=2, chunk_size=1, **kw), 'connected_components'
        elif k == 1:
            got, mode = pairwise_fuzzy_clusters(range(3), processes=2, chunk_size=2, **kw), 'fuzzy_clusters'
        elif k == 2:
            got, mode = blocking(range(3), block=lambda x: 'b', processes=2, **kw), 'connected_components'
        else:
            got, mode = blocking(range(3), blocks=lambda x: 'bc', processes=2, mode='fuzzy_clusters', **kw), 'fuzzy_clusters'
        judge(cx, 'parallel clustering, %s' % (name,), 3, edges, [list(c) for c in got], mode)
