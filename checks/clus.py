"""Shared oracles of the clustering checks. Items are arbitrary; the similarity relation is given as data."""
import itertools
from collections import Counter
from fractions import Fraction

INF = float('inf')


def all_graphs(n):
    """Every labelled graph on 0..n-1 as a frozenset of edges (i, j), i < j."""
    es = list(itertools.combinations(range(n), 2))
    for mask in range(1 << len(es)):
        yield frozenset(e for k, e in enumerate(es) if mask >> k & 1)


def graph_mask(n, mask):
    es = list(itertools.combinations(range(n), 2))
    return frozenset(e for k, e in enumerate(es) if mask >> k & 1)


def neighbours(n, edges):
    adj = [set() for _ in range(n)]
    for i, j in edges:
        adj[i].add(j)
        adj[j].add(i)
    return adj


def components(n, edges):
    seen, out = set(), []
    adj = neighbours(n, edges)
    for i in range(n):
        if i in seen:
            continue
        comp, stack = set(), [i]
        while stack:
            x = stack.pop()
            if x in comp:
                continue
            comp.add(x)
            stack.extend(adj[x])
        seen |= comp
        out.append(frozenset(comp))
    return out


def expect_components(n, edges, min_size=2, max_size=INF):
    return Counter(c for c in components(n, edges) if min_size <= len(c) <= max_size)


def leader_reference(n, edges, min_size=2, max_size=INF):
    """The leader algorithm as documented: the first unclaimed item claims every later unclaimed item similar to
    it; a cluster that would exceed max_size is given up and its members stay available."""
    adj = neighbours(n, edges)
    claimed, out = set(), Counter()
    for i in range(n):
        if i in claimed:
            continue
        members = [j for j in range(i + 1, n) if j not in claimed and j in adj[i]]
        if not members or len(members) + 1 > max_size:
            continue
        claimed.update(members)
        if len(members) + 1 >= min_size:
            out[frozenset([i] + members)] += 1
    return out


def fuzzy_problem(n, edges, clusters, min_size=2, max_size=INF):
    """None, or why `clusters` (lists of item indices) is not a fuzzy clustering of the graph: every cluster is
    one item (its leader) together with all items similar to it, sizes are viable, no leader is similar to
    another leader, and every item that could lead is a leader or similar to one."""
    adj = neighbours(n, edges)
    closed = [frozenset(adj[i] | {i}) for i in range(n)]
    viable = [i for i in range(n) if adj[i] and min_size <= len(closed[i]) <= max_size]
    leaders = []
    for c in clusters:
        s = frozenset(c)
        if len(s) != len(c):
            return 'cluster %r holds an item twice' % (c,)
        if not min_size <= len(c) <= max_size:
            return 'cluster %r has a size outside [%s, %s]' % (c, min_size, max_size)
        cand = [i for i in viable if closed[i] == s]
        if not cand:
            return 'cluster %r is not an item with everything similar to it' % (c,)
        leaders.append(cand[0])
    for x, y in itertools.combinations(leaders, 2):
        if y in closed[x]:
            return 'two clusters led by similar items: %r' % (clusters,)
    for i in viable:
        if not any(i in closed[l] for l in leaders):
            return 'item %d and its similar items are in no cluster: %r' % (i, clusters)
    return None


def as_counter(clusters):
    """Clusters as a multiset of sets; None if one holds an item twice."""
    out = Counter()
    for c in clusters:
        s = frozenset(c)
        if len(s) != len(c):
            return None
        out[s] += 1
    return out


def multiset(clusters):
    """For data with repeated values: a multiset of multisets."""
    return Counter(tuple(sorted(c)) for c in clusters)


SIZES = [(2, INF), (3, INF), (2, 2), (2, 3), (3, 3), (4, INF), (2, 4), (3, 4)]


class Item(object):
    """An opaque item: identity only (hash and equality by identity), no order."""
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return 'x%d' % self.i


# Keys which are easily mixed up: equal hashes, equal texts, falsy ones, equal values of different types.
KEYS = ['a', 'A', 'a ', ' a', 'b', 'ab', '', '0', '1', '-1', 'None', 'é', 'e\u0301', '\U0001f600', '\x00', b'a', ('a',), ('a', 'b'), (), None, 0, 1, 2, -1, -2,
        0.0, 1.0, 0.5, True, False, 2 ** 53, 2.0 ** 53, 2 ** 53 + 1, 2 ** 61 - 1, 10 ** 20, frozenset(), frozenset('a'), float('inf')]

# Distinct hashable items (no two are equal), falsy and look-alike ones among them.
ITEMS = ['', 0, None, 'a', 'A', '0', -1, -2, (), ('a',), frozenset(), b'', 0.5, 'a ', 2 ** 61 - 2]


# Scores which are easily mixed up when they are rounded, truncated or compared by identity.
SCORES = [0, 0.0, 1e-9, 0.25, Fraction(1, 3), 0.5, 0.5000001, 0.75, 0.999999, 1, 1.0, True, 1.25, 1.5, 2, 2.5, 10, 100, 100.5, 2 ** 53, 2 ** 53 + 1, INF]
TRUTHS = [True, False, 1, 0, 2, -1, 0.1, 0.0, 'x', '', [0], [], None, Fraction(0), Fraction(1, 7)]


def scored(values=SCORES):
    """Three items, two scored pairs, each way to state it: (arguments, similar pairs). The third pair is far apart."""
    for kind in ('similarity', 'distance'):
        for r in values:
            far = -INF if kind == 'similarity' else 2 ** 60 if r < INF else INF
            for v in values:
                for w in (v, values[0], values[-1]):
                    yield score_case(kind, r, v, w, far)
        for v in TRUTHS:
            for w in TRUTHS:
                yield score_case(kind, None, v, w, kind == 'distance')


def score_case(kind, radius, v, w, far):
    near = (lambda x: bool(x) == (kind == 'similarity')) if radius is None else (lambda x: x >= radius) if kind == 'similarity' else (lambda x: x <= radius)
    table = {(0, 1): v, (1, 2): w, (0, 2): far}
    same = (1 if kind == 'similarity' else 0) if radius is None else (INF if kind == 'similarity' else 0)
    kw = {kind: lambda a, b: same if a == b else table[(a, b) if a < b else (b, a)]}
    if radius is not None:
        kw['radius'] = radius
    return (kind, radius, v, w), kw, frozenset(p for p, x in table.items() if near(x))
