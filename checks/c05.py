import math
from fractions import Fraction

from vp.core import Check, tuples
from fog.metrics import (jaccard_similarity, dice_coefficient, overlap_coefficient, binary_cosine_similarity,
                         sparse_binary_cosine_similarity)

check = Check(
    'C05', 'exhaustive enumeration of pairs of collections, in every container type, against set algebra',
    'All pairs of sequences over 4 symbols up to the stated length in 8 container types, and all intersection sizes '
    'of large sets; two empty collections, where the measures are conventions (Dice 1, the others 0).',
    ['the value of a measure on one empty object compared with itself is not claimed'])

MEASURES = {
    'jaccard_similarity': (jaccard_similarity, lambda a, b: Fraction(len(a & b), len(a | b))),
    'dice_coefficient': (dice_coefficient, lambda a, b: Fraction(2 * len(a & b), len(a) + len(b))),
    'overlap_coefficient': (overlap_coefficient,
                            lambda a, b: Fraction(len(a & b), min(len(a), len(b))) if a and b else Fraction(0)),
    'binary_cosine_similarity': (binary_cosine_similarity,
                                 lambda a, b: len(a & b) / math.sqrt(len(a) * len(b)) if a and b else 0.0),
}
CONTAINERS = {
    'tuple': tuple, 'list': list, 'str': ''.join, 'set': set, 'frozenset': frozenset,
    'dict': lambda t: {x: 1 for x in t}, 'keys': lambda t: dict.fromkeys(t).keys(),
    'iterator': iter, 'generator': lambda t: (x for x in t),
}


def close(x, y):
    return abs(float(x) - float(y)) <= 1e-12


def compare(cx, ca, cb, a, b):
    sa, sb = set(a), set(b)
    for name, (f, ref) in MEASURES.items():
        want = ref(sa, sb)
        A, B = CONTAINERS[ca](a), CONTAINERS[cb](b)
        cx.at((name, ca, a, cb, b))
        got = f(A, B)
        cx.checked += 1
        if not close(got, want):
            cx.fail('%s(%s %r, %s %r) = %r, expected %s' % (name, ca, a, cb, b, got, want))
        if ca in ('list', 'set', 'dict'):
            cx.expect(A == CONTAINERS[ca](a), 'argument mutated')
        cx.outcomes[(name, got)] = 1
    if ca in ('set', 'frozenset', 'dict', 'keys') and cb in ('set', 'frozenset', 'dict', 'keys'):
        cx.at(('sparse_binary_cosine_similarity', ca, a, cb, b))
        got = sparse_binary_cosine_similarity(CONTAINERS[ca](a), CONTAINERS[cb](b))
        cx.expect(close(got, want), lambda: 'sparse_binary_cosine_similarity(%r, %r) = %r, expected %s' % (sa, sb, got, want))


def bound(t):
    return 'all pairs of sequences over %d symbols up to length %d, not both empty' % ((3, 4) if t == 'quick' else (4, 4))


def seqs(t):
    return list(tuples('abc', 0, 4) if t == 'quick' else tuples('abcd', 0, 4))


@check.family('all pairs of sequences', lambda t: [(t, i) for i in range(64)], bound)
def pairs(unit, cx):
    t, i = unit
    ss = seqs(t)
    for a in ss[i::64]:
        for b in ss:
            if a or b:
                compare(cx, 'tuple', 'list', a, b)
                compare(cx, 'set', 'set', a, b)


@check.family('every pair of container types', lambda t: [(ca, cb) for ca in CONTAINERS for cb in CONTAINERS],
              '9 x 9 container types, all pairs of sequences over 3 symbols up to length 3, not both empty')
def containers(unit, cx):
    ca, cb = unit
    ss = list(tuples('abc', 0, 3))
    for a in ss:
        for b in ss:
            if a or b:
                compare(cx, ca, cb, a, b)


@check.family('same object twice', lambda t: [c for c in CONTAINERS if c not in ('iterator', 'generator')],
              'every non-empty sequence over 3 symbols up to length 4, compared with itself')
def same(unit, cx):
    for a in tuples('abc', 1, 4):
        A = CONTAINERS[unit](a)
        for name, (f, _) in MEASURES.items():
            cx.at((name, unit, a, 'same object'))
            got = f(A, A)
            cx.expect(close(got, 1), '%s of %r with itself is %r' % (name, A, got))


SIZES = [1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000]


@check.family('large sets', lambda t: SIZES, 'sizes %s, all intersection sizes (at most 66 per pair)' % SIZES)
def large(unit, cx):
    n = unit
    for m in SIZES:
        k = min(n, m)
        step = max(1, k // 64)
        for i in sorted(set(range(0, k + 1, step)) | {k, k - 1}):
            a = tuple('t%d' % x for x in range(n))
            b = tuple('t%d' % x for x in range(n - i, n - i + m))
            compare(cx, 'set', 'frozenset', a, b)


@check.family('elements of mixed types', lambda t: [0], 'all pairs of subsets of 7 elements of mixed hashable types')
def mixed(unit, cx):
    from vp.core import subsets
    xs = [0, 'a', (1, 2), None, frozenset([1]), 1.5, True]
    ss = list(subsets(xs))
    for a in ss:
        for b in ss:
            if a or b:
                compare(cx, 'list', 'set', a, b)


@check.family('two empty collections', lambda t: [0], 'every pair of distinct empty lists, sets, mappings and iterators')
def empty(unit, cx):
    makers = [list, set, dict, lambda: iter(()), lambda: (x for x in ())]
    for ma in makers:
        for mb in makers:
            for name, (f, _) in MEASURES.items():
                cx.at((name, 'two empty collections', type(ma()).__name__, type(mb()).__name__))
                got = f(ma(), mb())
                cx.same(got, 1 if name == 'dice_coefficient' else 0, '%s of two empty collections' % name)


def others():
    import array
    import collections
    import types
    D = collections.defaultdict
    return {
        'list': list, 'bytes': bytes, 'bytearray': bytearray, 'array': lambda t: array.array('B', t), 'deque': collections.deque,
        'values': lambda t: dict(enumerate(t)).values(), 'memoryview': lambda t: memoryview(bytes(t)),
        'zero weights': lambda t: {x: 0 for x in t}, 'counter without counts': lambda t: collections.Counter({x: 0 for x in t}),
        'negative weights': lambda t: {x: -1 for x in t}, 'none': dict.fromkeys,
        'defaultdict': lambda t: D(lambda: 7, {x: 0 for x in t}), 'ordered': lambda t: collections.OrderedDict.fromkeys(t, ''),
        'user dict': lambda t: collections.UserDict({x: 0 for x in t}), 'user list': collections.UserList,
        'proxy': lambda t: types.MappingProxyType({x: 0 for x in t}), 'chain map': lambda t: collections.ChainMap({x: 0 for x in t}, {}),
        'map': lambda t: map(int, t),
    }


OTHERS = others()


@check.family('other containers', lambda t: list(OTHERS),
              '18 x 18 further types of collections and mappings (bytes, arrays, deques, views, mappings with weights 0, -1 or defaults), all pairs of '
              'sequences over 3 small integers up to length 2 and some longer; left as they were')
def other(unit, cx):
    ss = list(tuples((0, 1, 97), 0, 2)) + [(0, 0, 1), (1, 97, 97), (0, 1, 97), (97, 97, 97, 0)]
    for cb in OTHERS:
        for a in ss:
            for b in ss:
                if not (a or b):
                    continue
                sa, sb = set(a), set(b)
                for name, (f, ref) in MEASURES.items():
                    A, B = OTHERS[unit](a), OTHERS[cb](b)
                    cx.at((name, unit, a, cb, b))
                    got = f(A, B)
                    want = ref(sa, sb)
                    cx.expect(close(got, want), lambda: '%s(%s %r, %s %r) = %r, expected %s' % (name, unit, a, cb, b, got, want))
                    for c, X, t in ((unit, A, a), (cb, B, b)):
                        if c != 'map' and len(X) != len(OTHERS[c](t)):
                            cx.fail('%s(%s %r, %s %r) changed its argument to %r' % (name, unit, a, cb, b, X))
                    cx.outcomes[(name, got)] = 1
