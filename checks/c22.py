import itertools
import math

import networkx as nx

from vp.core import Check
from checks import clus
from fog.graph import floatsam_sparsification
from fog.graph.utils import component_sizes, second_largest_component_size

check = Check(
    'C22', 'exhaustive enumeration of weighted graphs on the real sparsifier against its stopping rule',
    'Every graph on up to 5 nodes with weights out of 3 values, every starting threshold, step and drifter size; every graph on '
    'up to 5 nodes with every edge filter for the component sizes.',
    ['every edge has a finite weight, the step is positive', 'no weight lies within 1e-6 of a threshold reached by the steps'])


def sizes(n, edges):
    return sorted((len(c) for c in clus.components(n, frozenset(edges))), reverse=True)


def reference(n, weighted, start, rate, drifter):
    if not weighted:
        return start
    t = start
    while True:
        kept = [e for e, w in weighted.items() if w >= t + rate]
        if not kept:
            return t
        s = sizes(n, kept)
        if len(s) > 1 and s[1] >= drifter:
            return t
        t += rate


def go(cx, n, weighted, start=0.0, rate=0.05, drifter=None, remove=False, weight='weight'):
    g = nx.Graph()
    g.add_nodes_from(range(n))
    for (a, b), w in weighted.items():
        g.add_edge(a, b, **{weight: w, 'tag': (a, b)})
    what = 'floatsam_sparsification of %d nodes, %s, start %s, rate %s, drifter %s' % (n, weighted, start, rate, drifter)
    kw = {}
    if start != 0.0:
        kw['starting_treshold'] = start
    if rate != 0.05:
        kw['learning_rate'] = rate
    if drifter is not None:
        kw['max_drifter_size'] = drifter
    if weight != 'weight':
        kw['weight'] = weight
    cx.at((what, remove))
    got = floatsam_sparsification(g, remove_edges=remove, **kw)
    d = drifter if drifter is not None else (int(math.log(n)) if n else 0)
    want = reference(n, {e: w for e, w in weighted.items()}, start, rate, d)
    cx.checked += 1
    if abs(got - want) > 1e-7:
        cx.fail('%s: threshold %r, expected %r' % (what, got, want))
    left = {tuple(sorted(e)) for e in g.edges}
    keep = {tuple(sorted(e)) for e, w in weighted.items() if not remove or w >= want}
    if left != keep or set(g.nodes) != set(range(n)):
        cx.fail('%s: remove_edges=%s left %s, expected %s (threshold %r)' % (what, remove, sorted(left), sorted(keep), want))
    if any(d_[weight] != weighted[d_['tag']] for _, _, d_ in g.edges(data=True)):
        cx.fail('%s: weights were modified' % what)
    cx.outcomes[(round(got, 6), len(left))] = 1


@check.family('all weighted graphs', lambda t: [(n, i) for n in range(0, 6) for i in range(16)],
              'every graph on up to 5 nodes whose edges weigh 0.12, 0.33 or 0.57 (5 nodes: absent, 0.12 or 0.57), drifter sizes 0..3 and the default, removing or not')
def graphs(unit, cx):
    n, r = unit
    es = list(itertools.combinations(range(n), 2))
    values = (None, 0.12, 0.33, 0.57) if n < 5 else (None, 0.12, 0.57)
    for k, ws in enumerate(itertools.product(values, repeat=len(es))):
        if k % 16 != r:
            continue
        weighted = {e: w for e, w in zip(es, ws) if w is not None}
        if n == 5 and cx.tier == 'quick':
            for d in (None, 2):
                go(cx, n, weighted, rate=0.1, drifter=d, remove=True)
            continue
        for d in (None, 0, 1, 2, 3):
            for remove in (False, True):
                go(cx, n, weighted, rate=0.1, drifter=d, remove=remove)


@check.family('starting points and steps', lambda t: list(range(8)),
              'every graph on 4 nodes with edges absent, 0.33 or 1.27; starting thresholds -0.21, 0.28, 0.4, 2; steps 0.05 and 0.5; other attribute name; loops')
def starts(unit, cx):
    es = list(itertools.combinations(range(4), 2))
    for k, ws in enumerate(itertools.product((None, 0.33, 1.27), repeat=6)):
        if k % 8 != unit:
            continue
        weighted = {e: w for e, w in zip(es, ws) if w is not None}
        for start in (-0.21, 0.28, 0.4, 2.0):
            for rate in (0.05, 0.5):
                go(cx, 4, weighted, start, rate, 2, True)
        go(cx, 4, weighted, 0.0, 0.05, 1, True, weight='strength')
        go(cx, 4, dict(weighted, **{}), 0.0, 0.05)
        w2 = dict(weighted)
        w2[(0, 0)] = 0.77
        go(cx, 4, w2, 0.0, 0.1, 2, True)


@check.family('larger graphs', lambda t: [7, 8, 9, 12, 20, 21, 30, 60, 129, 300, 1001, 2500],
              'stars, paths, cliques and two communities, equal and spread weights, every default')
def larger(unit, cx):
    n = unit
    star = [(0, i) for i in range(1, n)]
    path = [(i, i + 1) for i in range(n - 1)]
    clique = list(itertools.combinations(range(n), 2)) if n <= 21 else path + [(0, n - 1)]
    h = n // 2
    two = [e for e in (itertools.combinations(range(n), 2) if n <= 21 else path) if (e[0] < h) == (e[1] < h)]
    for name, es in (('star', star), ('path', path), ('clique', clique), ('two', two + [(0, h)]), ('apart', two)):
        for wname, f in (('equal', lambda k: 0.43), ('spread', lambda k: 0.031 + 0.1 * (k % 7)), ('rising', lambda k: 0.013 + 0.05 * (k % 40) / 2.0001)):
            weighted = {e: f(k) for k, e in enumerate(es)}
            if name == 'two':
                weighted[(0, h)] = 0.111
            go(cx, n, weighted)
            go(cx, n, weighted, remove=True)
            go(cx, n, weighted, drifter=5, remove=True)
            go(cx, n, weighted, drifter=0, remove=True)
            go(cx, n, weighted, drifter=1)


@check.family('component sizes', lambda t: [(n, i) for n in range(0, 6) for i in range(8)],
              'every graph on up to 5 nodes; every symmetric edge filter given as a subset of the edges of every graph on 4 nodes')
def comps(unit, cx):
    n, r = unit
    for mask in range(r, 1 << (n * (n - 1) // 2), 8):
        edges = clus.graph_mask(n, mask)
        g = nx.Graph()
        g.add_nodes_from(range(n))
        g.add_edges_from((a, b, {'k': (a, b)}) for a, b in edges)
        subs = [None] if n != 4 else [None] + [frozenset(s) for q in range(len(edges) + 1) for s in itertools.combinations(sorted(edges), q)]
        for keep in subs:
            want = sizes(n, edges if keep is None else keep)
            f = None if keep is None else (lambda u, v, attr: (min(u, v), max(u, v)) in keep and attr['k'] in keep)
            cx.at(('component_sizes', n, sorted(edges), keep and sorted(keep)), 2)
            cx.same(sorted(component_sizes(g, f), reverse=True), want, 'component_sizes')
            cx.same(second_largest_component_size(g, f), want[1] if len(want) > 1 else None, 'second_largest_component_size')


@check.family('scale', lambda t: list(range(8)),
              'every graph on 4 nodes with edges absent, 0.33 or 1.27 and weights, starting threshold and step all multiplied by 2^-40, 2^-20 and 2^30: the same threshold, multiplied likewise')
def scale(unit, cx):
    es = list(itertools.combinations(range(4), 2))
    for k, ws in enumerate(itertools.product((None, 0.33, 1.27), repeat=6)):
        if k % 8 != unit:
            continue
        weighted = {e: w for e, w in zip(es, ws) if w is not None}
        for start in (0.0, 0.28):
            for d in (None, 2):
                for f in (2.0 ** -40, 2.0 ** -20, 2.0 ** 30):
                    g = nx.Graph()
                    g.add_nodes_from(range(4))
                    g.add_weighted_edges_from((a, b, w * f) for (a, b), w in weighted.items())
                    what = 'floatsam_sparsification of %s times %r, start %s, drifter %s' % (weighted, f, start, d)
                    cx.at(what)
                    got = floatsam_sparsification(g, starting_treshold=start * f, learning_rate=0.1 * f, max_drifter_size=d, remove_edges=True) / f
                    want = reference(4, weighted, start, 0.1, 1 if d is None else d)
                    cx.expect(abs(got - want) < 1e-7, '%s: threshold %r times the factor, expected %r' % (what, got, want))
                    cx.expect({tuple(sorted(e)) for e in g.edges} == {e for e, w in weighted.items() if w >= want}, '%s left %s' % (what, sorted(g.edges)))
