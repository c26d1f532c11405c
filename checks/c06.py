import itertools
import math
from collections import Counter, OrderedDict, defaultdict
from fractions import Fraction

from vp.core import Check, tuples
from fog.metrics import (weighted_jaccard_similarity, sparse_cosine_similarity, sparse_dot_product, sparse_norm,
                         sparse_normalize, cosine_similarity)

check = Check(
    'C06', 'exhaustive enumeration of pairs of weighted sets against exact rational arithmetic',
    'All pairs of weighted sets over the stated keys and weights; results compared with exact rationals up to '
    'floating point rounding.',
    ['weighted Jaccard is claimed for non-negative weights with a positive total, cosine for vectors with a '
     'non-zero norm or without entries'])

ABSENT = None


def vectors(weights, n):
    keys = 'abcdef'[:n]
    for ws in itertools.product((ABSENT,) + tuple(weights), repeat=n):
        yield {k: w for k, w in zip(keys, ws) if w is not ABSENT}


def close(x, y, tol=1e-9):
    return abs(x - y) <= tol * max(1.0, abs(y))


def fr(v):
    return {k: Fraction(w) for k, w in v.items()}


def ref_wj(a, b):
    if not a or not b:
        return Fraction(0)
    a, b = fr(a), fr(b)
    keys = set(a) | set(b)
    i = sum(min(a.get(k, 0), b.get(k, 0)) for k in keys)
    u = sum(max(a.get(k, 0), b.get(k, 0)) for k in keys)
    return i / u


def ref_dot(a, b):
    a, b = fr(a), fr(b)
    return sum((a[k] * b[k] for k in a if k in b), Fraction(0))


def rsqrt(x):
    # square root of a rational, scaled to stay inside the range of floats
    return math.sqrt(x)


def ref_cos(a, b):
    if not a or not b:
        return 0.0
    d = ref_dot(a, b)
    return float(d) / (rsqrt(ref_dot(a, a)) * rsqrt(ref_dot(b, b)))


def check_pair(cx, a, b, mk=dict):
    nonneg = all(w >= 0 for w in a.values()) and all(w >= 0 for w in b.values())
    A, B = mk(a), mk(b)
    if nonneg and (not a or not b or any(a.values()) or any(b.values())):
        cx.at(('weighted_jaccard_similarity', a, b))
        got = weighted_jaccard_similarity(A, B)
        cx.expect(close(got, float(ref_wj(a, b))), lambda: 'weighted_jaccard_similarity(%r, %r) = %r, expected %s' % (a, b, got, ref_wj(a, b)))
        cx.outcomes[('wj', round(got, 9))] = 1
    cx.at(('sparse_dot_product', a, b))
    got = sparse_dot_product(A, B)
    cx.expect(close(got, float(ref_dot(a, b))), lambda: 'sparse_dot_product(%r, %r) = %r, expected %s' % (a, b, got, ref_dot(a, b)))
    if (not a or any(a.values())) and (not b or any(b.values())):
        want = ref_cos(a, b)
        for name, f in (('sparse_cosine_similarity', sparse_cosine_similarity), ('cosine_similarity', cosine_similarity)):
            cx.at((name, a, b))
            got = f(A, B)
            cx.expect(close(got, want), lambda: '%s(%r, %r) = %r, expected %s' % (name, a, b, got, want))
            cx.outcomes[('cos', round(got, 9))] = 1
    cx.expect(A == a and B == b, 'argument mutated')


SPACES = {
    'integers': ((0, 1, 2, 5), 3),
    'signed': ((-2, -1, 1, 3), 3),
    'fractions': ((0.25, 0.5, 1.0, 0), 3),
    'magnitudes': ((1e-6, 1, 1e6), 3),
    'four keys': ((1, 2), 4),
    'wide': ((1, 3), 5),
}


@check.family('all pairs of weighted sets', lambda t: [(s, i) for s in SPACES for i in range(8)] +
              ([('five', i) for i in range(64)] if t == 'thorough' else []),
              'all pairs over %r (weights, number of keys)' % SPACES)
def pairs(unit, cx):
    s, i = unit
    w, n = SPACES[s] if s in SPACES else ((1, 2, 4, -1), 4)
    vs = list(vectors(w, n))
    m = 8 if s in SPACES else 64
    for a in vs[i::m]:
        for b in vs:
            check_pair(cx, a, b)


@check.family('norms', lambda t: list(SPACES), 'sparse_norm, sparse_normalize, self similarity of every weighted set')
def norms(unit, cx):
    w, n = SPACES[unit]
    for a in vectors(w, n):
        for mk in (dict, Counter, OrderedDict):
            A = mk(a)
            cx.at(('sparse_norm', a))
            want = math.sqrt(ref_dot(a, a))
            got = sparse_norm(A)
            cx.expect(close(got, want), 'sparse_norm(%r) = %r, expected %r' % (a, got, want))
            cx.at(('sparse_normalize', a))
            u = sparse_normalize(A)
            if want == 0:
                cx.expect(not any(u.values()), 'sparse_normalize(%r) = %r' % (a, u))
            else:
                cx.expect(set(u) == set(a) and all(close(u[k], a[k] / want) for k in a),
                          lambda: 'sparse_normalize(%r) = %r' % (a, u))
                cx.at(('self', a), 2)
                cx.expect(close(sparse_cosine_similarity(A, A), 1), 'cosine with itself')
                if all(x >= 0 for x in a.values()):
                    cx.expect(close(weighted_jaccard_similarity(A, A), 1), 'weighted jaccard with itself')
            cx.expect(A == mk(a), 'argument mutated')
            cx.outcomes[round(got, 9)] = 1


@check.family('sequences', lambda t: list(range(16)), 'cosine_similarity of all pairs of sequences over 3 symbols up to length 4 (5 thorough): str, list, iterator, Counter')
def sequences(unit, cx):
    ss = list(tuples('abc', 0, 4 if cx.tier == 'quick' else 5))
    for a in ss[unit::16]:
        for b in ss:
            want = ref_cos(Counter(a), Counter(b))
            for A, B in ((''.join(a), ''.join(b)), (list(a), iter(b)), (Counter(a), tuple(b)), (iter(a), Counter(b))):
                cx.at(('cosine_similarity', a, b, type(A).__name__, type(B).__name__))
                got = cosine_similarity(A, B)
                cx.expect(close(got, want), lambda: 'cosine_similarity(%r, %r) = %r, expected %r' % (a, b, got, want))
                cx.outcomes[round(got, 9)] = 1


SIZES = [1, 2, 3, 8, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 500, 1001]


@check.family('large weighted sets', lambda t: SIZES, 'sizes %s, intersections of every tenth' % SIZES)
def large(unit, cx):
    n = unit
    big(cx, n)
    for m in SIZES:
        k = min(n, m)
        for i in sorted(set(range(0, k + 1, max(1, k // 10))) | {k}):
            a = {'t%d' % x: 1 + x % 7 for x in range(n)}
            b = {'t%d' % x: 1 + x % 5 for x in range(n - i, n - i + m)}
            check_pair(cx, a, b)


def big(cx, n):
    for f in (lambda i: i % 7 - 3, lambda i: 0.5 ** (i % 9), lambda i: 1):
        a = {'k%d' % i: f(i) for i in range(n)}
        want = math.sqrt(math.fsum(v * v for v in a.values()))
        cx.at(('sparse_norm', n))
        got = sparse_norm(a)
        cx.expect(close(got, want), lambda: 'sparse_norm of %d weights = %r, expected %r' % (n, got, want))
        if want:
            cx.at(('sparse_normalize', n))
            u = sparse_normalize(a)
            cx.expect(set(u) == set(a) and all(close(u[k], a[k] / want) for k in a), lambda: 'sparse_normalize of %d weights' % n)
    s = [i % 7 for i in range(n)]
    cx.at(('cosine_similarity', n), 2)
    got = cosine_similarity(s, iter(s + [9]))
    want = ref_cos(Counter(s), Counter(s + [9]))
    cx.expect(close(got, want), lambda: 'cosine_similarity of %d items = %r, expected %r' % (n, got, want))


def defaulting(a):
    return defaultdict(lambda: 7, a)


@check.family('kinds of mappings', lambda t: list(range(8)),
              'all pairs of weighted sets over 2 keys and weights 0, 1, 3 and over 2 keys and weights -1, 0.5 as dict, Counter, OrderedDict, and defaultdict whose default is not 0; '
              'left as they were, also when the normalised set is changed')
def mappings(unit, cx):
    makers = (dict, Counter, OrderedDict, defaulting)
    for ws in ((0, 1, 3), (-1, 0.5)):
        vs = list(vectors(ws, 2)) + [{'b': 1, 'c': 2}]
        for a in vs[unit::8]:
            for mk in makers:
                A = mk(a)
                cx.at(('sparse_normalize', mk.__name__, a))
                u = sparse_normalize(A)
                u['another key'] = 1
                u['a'] = 99
                cx.expect(A == a, 'sparse_normalize(%s %r): changing the result changed the argument to %r' % (mk.__name__, a, dict(A)))
            for b in vs:
                for ma in makers:
                    for mb in makers:
                        nonneg = all(w >= 0 for w in a.values()) and all(w >= 0 for w in b.values())
                        A, B = ma(a), mb(b)
                        what = '(%s %r, %s %r)' % (ma.__name__, a, mb.__name__, b)
                        cx.at(('weighted measures', what), 3)
                        if nonneg and (not a or not b or any(a.values()) or any(b.values())):
                            got = weighted_jaccard_similarity(A, B)
                            cx.expect(close(got, float(ref_wj(a, b))), lambda: 'weighted_jaccard_similarity%s = %r, expected %s' % (what, got, ref_wj(a, b)))
                        got = sparse_dot_product(A, B)
                        cx.expect(close(got, float(ref_dot(a, b))), lambda: 'sparse_dot_product%s = %r, expected %s' % (what, got, ref_dot(a, b)))
                        if (not a or any(a.values())) and (not b or any(b.values())):
                            for name, f in (('sparse_cosine_similarity', sparse_cosine_similarity), ('cosine_similarity', cosine_similarity)):
                                got = f(A, B)
                                cx.expect(close(got, ref_cos(a, b)), lambda: '%s%s = %r, expected %r' % (name, what, got, ref_cos(a, b)))
                        cx.expect(A == a and B == b, lambda: 'the measures changed their arguments %s to %r, %r' % (what, dict(A), dict(B)))
