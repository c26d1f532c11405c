import itertools
import math

import networkx as nx

from vp.core import Check
from fog.graph import monopartite_projection

check = Check(
    'C21', 'exhaustive enumeration of bipartite graphs on the real projection against its definition',
    'Every bipartite graph between up to 3 and 3, 4 and 2, and 2 and 4 nodes, every measure, thresholds at and around every '
    'reachable value, with and without use of the topology; every weighting of small graphs for the cosine.',
    ['simple undirected graphs whose nodes all carry the partition attribute', 'weights are finite numbers'])

METRICS = (None, 'jaccard', 'overlap', 'dice', 'binary_cosine', 'cosine')


def reference(L, Rn, edges, metric, threshold):
    """edges: {(l, r): weight}"""
    nb = {l: {r: w for (x, r), w in edges.items() if x == l} for l in L}
    out = {}
    for a, b in itertools.combinations(L, 2):
        i = len(set(nb[a]) & set(nb[b]))
        if metric == 'cosine':
            dot = sum(w * nb[b][r] for r, w in nb[a].items() if r in nb[b])
            if abs(dot) < 1e-12:
                continue
            v = dot / math.sqrt(sum(w * w for w in nb[a].values())) / math.sqrt(sum(w * w for w in nb[b].values()))
        elif not i:
            continue
        elif metric is None:
            v = i
        elif metric == 'jaccard':
            v = i / len(set(nb[a]) | set(nb[b]))
        elif metric == 'dice':
            v = 2 * i / (len(nb[a]) + len(nb[b]))
        elif metric == 'overlap':
            v = i / min(len(nb[a]), len(nb[b]))
        else:
            v = i / math.sqrt(len(nb[a]) * len(nb[b]))
        if threshold is not None:
            if v < threshold - 1e-9:
                continue
            if v < threshold + 1e-9 and (v != threshold or metric in ('cosine', 'binary_cosine')):
                out[frozenset((a, b))] = (v, True)   # equal up to rounding: may be kept or not
                continue
        out[frozenset((a, b))] = (v, False)
    return out


NAMES = ('left', 'right')


def build(L, R, edges, part='bipartite', names=NAMES, weight='weight', interleave=False):
    g = nx.Graph()
    nodes = [(l, names[0]) for l in L] + [(r, names[1]) for r in R]
    if interleave:
        nodes = nodes[1::2] + nodes[::2]
    for i, (n, p) in enumerate(nodes):
        g.add_node(n, **{part: p, 'label': 'node %s' % (n,), 'other': i})
    for (l, r), w in edges.items():
        if w is None:
            g.add_edge(r, l)
        else:
            g.add_edge(l, r, **{weight: w})
    return g


def go(cx, L, R, edges, metric, threshold=None, topo=True, project='left', part='bipartite', weight='weight', checked=True, interleave=False, names=NAMES):
    what = 'monopartite_projection of edges %s on %s, metric %s, threshold %s, use_topology %s%s' % (
        {k: v for k, v in edges.items()}, project, metric, threshold, topo, '' if names is NAMES else ', parts named %r, %r' % names)
    g = build(L, R, edges, part, names, weight=weight, interleave=interleave)
    before = ({n: dict(d) for n, d in g.nodes(data=True)}, {frozenset(e[:2]): dict(e[2]) for e in g.edges(data=True)})
    cx.at(what)
    kw = dict(metric=metric, threshold=threshold, use_topology=topo, bipartition_check=checked)
    if part != 'bipartite':
        kw['part'] = part
    if weight != 'weight':
        kw['weight'] = weight
    m = monopartite_projection(g, names[NAMES.index(project)], **kw)
    real = {k: (1 if w is None else w) for k, w in edges.items()}
    if project == 'left':
        want = reference(L, R, real, metric, threshold)
        mine = L
    else:
        want = reference(R, L, {(r, l): w for (l, r), w in real.items()}, metric, threshold)
        mine = R
    cx.checked += 1
    if set(m.nodes) != set(mine) or any(m.nodes[n] != g.nodes[n] for n in mine):
        cx.fail('%s: nodes %s' % (what, dict(m.nodes(data=True))))
    got = {frozenset((u, v)): d for u, v, d in m.edges(data=True)}
    for e, (v, maybe) in want.items():
        if e not in got:
            if not maybe:
                cx.fail('%s: no edge %s, expected weight %r' % (what, sorted(map(str, e)), v))
        elif abs(got[e].get(weight, float('nan')) - v) > 1e-9 or set(got[e]) != {weight}:
            cx.fail('%s: edge %s carries %s, expected %s %r' % (what, sorted(map(str, e)), got[e], weight, v))
    for e in got:
        if e not in want:
            cx.fail('%s: unexpected edge %s %s' % (what, sorted(map(str, e)), got[e]))
        if got[e].get(weight) != got[e].get(weight):
            cx.fail('%s: edge %s has no %s' % (what, e, weight))
    if ({n: dict(d) for n, d in g.nodes(data=True)}, {frozenset(e[:2]): dict(e[2]) for e in g.edges(data=True)}) != before:
        cx.fail('%s: the given graph was modified' % what)
    cx.outcomes[frozenset((e, d.get(weight)) for e, d in got.items())] = 1
    for n in m.nodes:
        m.nodes[n]['label'] = 'changed'
    for u, v in m.edges:
        m[u][v][weight] = 'changed'
    m.add_edge(object(), object())
    if ({n: dict(d) for n, d in g.nodes(data=True)}, {frozenset(e[:2]): dict(e[2]) for e in g.edges(data=True)}) != before:
        cx.fail('%s: changing the projection changes the given graph' % what)


def all_edges(L, R, mask, w=None):
    es = list(itertools.product(L, R))
    return {e: w for k, e in enumerate(es) if mask >> k & 1}


SHAPES = [(1, 1), (2, 2), (3, 2), (2, 3), (3, 3), (4, 2), (2, 4), (0, 2), (2, 0), (1, 3), (4, 3)]
THRESHOLDS = (None, 0.25, 1 / 3, 0.5, 0.6, 2 / 3, 0.75, 0.99, 1, 2)


@check.family('all bipartite graphs', lambda t: [(s, m, i) for s in (SHAPES if t != 'quick' else SHAPES[:-1]) for m in METRICS for i in range(4)],
              'every bipartite graph of 1-4 by 1-4 nodes, unweighted, both sides projected, thresholds, both strategies')
def graphs(unit, cx):
    (nl, nr), m, r = unit
    L, R = ['l%d' % i for i in range(nl)], ['r%d' % i for i in range(nr)]
    for mask in range(r, 1 << (nl * nr), 4):
        edges = all_edges(L, R, mask)
        for topo in (True, False):
            for th in THRESHOLDS if nl * nr <= 6 else (None, 0.5, 0.75):
                go(cx, L, R, edges, m, th, topo)
            go(cx, L, R, edges, m, None, topo, project='right')


@check.family('weights', lambda t: [(m, topo, i) for m in METRICS for topo in (True, False) for i in range(8)],
              'every weighting with no weight, 0, 0.5, 1, 3, -1 of every graph of 2 by 2 nodes, and of the cycle and path of 3 by 2, all measures')
def weights(unit, cx):
    m, topo, r = unit
    L, R = ['a', 'b'], ['x', 'y']
    for k, ws in enumerate(itertools.product(('-', None, 0, 0.5, 1, 3, -1), repeat=4)):
        if k % 8 != r:
            continue
        edges = {e: w for e, w in zip(itertools.product(L, R), ws) if w != '-'}
        for th in (None, 0, 0.5) if cx.tier == 'quick' else (None, 0, -0.5, 0.25, 0.5, 0.9):
            go(cx, L, R, edges, m, th, topo)
    L = ['a', 'b', 'c']
    for k, ws in enumerate(itertools.product(('-', 0, 1, 3), repeat=6)):
        if k % 8 == r:
            edges = {e: w for e, w in zip(itertools.product(L, R), ws) if w != '-'}
            go(cx, L, R, edges, m, None, topo)


class Opaque(object):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return '<%s>' % self.n


ODD_NAMES = [(0, 1), (1, 0), (False, True), ('', 'x'), (None, 'x'), ('x', None), (1, '1'), ('1', 1), ('a', 'A'), ((), (1,)), (-1, -2), ('é', 'e'), ('part', 'parts'), (0.5, 0)]


@check.family('names of the parts', lambda t: list(range(len(ODD_NAMES))),
              'parts named with 0, False, None, empty strings and tuples, 1 and its string, upper and lower case; every graph of 2 by 2 nodes, projected on each')
def part_names(unit, cx):
    for mask in range(16):
        for m in (None, 'jaccard', 'cosine'):
            for topo in (True, False):
                for side in ('left', 'right'):
                    for checked in (True, False):
                        go(cx, ['a', 'b'], ['x', 'y'], all_edges(['a', 'b'], ['x', 'y'], mask), m, None, topo, side, checked=checked, names=ODD_NAMES[unit])


@check.family('thresholds next to a weight', lambda t: [(m, topo) for m in (None, 'jaccard', 'overlap', 'dice') for topo in (True, False)],
              'every graph of 2 by 4 nodes, thresholds being each binary fraction reached and the floating point numbers before and after')
def thresholds(unit, cx):
    m, topo = unit
    L, R = ['a', 'b'], list('wxyz')
    for mask in range(256):
        edges = all_edges(L, R, mask)
        for (v, _) in reference(L, R, edges, m, None).values():
            if v * 8 != int(v * 8):
                continue
            for th, kept in ((v, True), (math.nextafter(v, 9), False), (math.nextafter(v, 0), True)):
                what = 'monopartite_projection of %s, metric %s, threshold %r' % (sorted(edges), m, th)
                cx.at(what)
                g = monopartite_projection(build(L, R, edges), 'left', metric=m, threshold=th, use_topology=topo)
                cx.expect(g.has_edge('a', 'b') == kept, '%s: the edge of weight %r is %s' % (what, v, 'missing' if kept else 'there'))


@check.family('kinds of nodes and attribute names', lambda t: list(range(8)),
              'integers, mixed types, tuples, opaque objects and frozensets as nodes, other attribute names, nodes added in another order, no check; every graph of 3 by 2')
def kinds(unit, cx):
    L, R = [([1, 2, 3], [4, 5]), ([1, 'b', None and 0 or (3,)], ['x', 9]), ([(1, 'a'), (1, 2), ('z',)], ['x', 'y']),
            ([Opaque(1), Opaque(2), Opaque(3)], [Opaque(4), Opaque(5)]), ([frozenset([1]), frozenset([2]), frozenset([1, 2])], ['x', 'y']),
            (['c', 'a', 'b'], ['0', 'zz']), ([-1, -2, 2 ** 61 - 3], ['x', 0]), ([0, "", ()], ["0", 0.5])][unit]
    for mask in range(64):
        for m in METRICS:
            for topo in (True, False):
                edges = all_edges(L, R, mask, 2)
                go(cx, L, R, edges, m, None, topo, interleave=True)
                go(cx, L, R, edges, m, 0.6, topo, part='kind', weight='strength', checked=False)


@check.family('graphs which are not bipartite', lambda t: [0],
              'every graph on 4 nodes in every assignment to 3 parts: refused exactly when an edge links a part with itself or edges touch 3 parts')
def invalid(unit, cx):
    pairs = list(itertools.combinations(range(4), 2)) + [(0, 0)]
    for parts in itertools.product('ABC', repeat=4):
        for mask in range(1 << len(pairs)):
            es = [e for k, e in enumerate(pairs) if mask >> k & 1]
            g = nx.Graph()
            for i, p in enumerate(parts):
                g.add_node(i, part=p)
            g.add_edges_from(es)
            bad = any(parts[a] == parts[b] for a, b in es) or len({parts[x] for e in es for x in e}) > 2
            cx.at(('invalid', parts, es))
            try:
                monopartite_projection(g, 'A', part='part')
                ok = True
            except TypeError:
                ok = False
            cx.expect(ok != bad, 'parts %s edges %s: %s' % (parts, es, 'accepted' if ok else 'refused'))
    cx.at('unknown measure')
    try:
        monopartite_projection(nx.Graph(), 'A', metric='unknown')
        cx.fail('an unknown measure is accepted')
    except TypeError:
        cx.checked += 1


@check.family('larger graphs', lambda t: [(m, topo) for m in METRICS for topo in (True, False)],
              'up to 40 by 30 nodes (sparse graphs: 1001 by 700): complete, star, cycle, sliding neighbourhoods, weighted')
def larger(unit, cx):
    m, topo = unit
    for nl, nr in ((10, 10), (40, 30), (30, 3)):
        L, R = list(range(nl)), ['r%d' % i for i in range(nr)]
        for name, edges in {'complete': {(l, r): 1 + (l * 7 + i) % 5 for l in L for i, r in enumerate(R)},
                            'star': {(l, R[0]): l + 1 for l in L},
                            'cycle': {(l, R[(l + d) % nr]): 1 for l in L for d in (0, 1)},
                            'sliding': {(l, R[(l * 3 + d) % nr]): 1 + d for l in L for d in range(1 + l % 5)}}.items():
            for th in (None, 0.5):
                go(cx, L, R, edges, m, th, topo)
    for k in (63, 64, 65, 127, 128, 129, 256, 300):
        R = ['r%d' % i for i in range(k)]
        go(cx, ['a', 'b', 'c'], R, dict([(('a', r), 1) for r in R] + [(('b', R[-1]), 1), (('c', R[k // 2]), 2)]), m, None, topo)
        go(cx, R, ['a', 'b'], dict([((r, 'a'), 1) for r in R] + [((R[-1], 'b'), 1), ((R[k // 2], 'b'), 2)]), m, None, topo)
    for nl, nr in ((129, 257), (1001, 700)):
        L, R = list(range(nl)), ['r%d' % i for i in range(nr)]
        for edges in ({(l, R[(l + d) % nr]): 1 + l % 3 for l in L for d in (0, 1)}, {(l, R[(l * 3 + d) % nr]): 1 + d for l in L for d in range(1 + l % 3)}):
            go(cx, L, R, edges, m, 0.4, topo)
