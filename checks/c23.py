import itertools
import warnings
from collections import Counter

from vp.core import Check
from checks import clus
from fog.join.hashjoin import hashjoin

check = Check(
    'C23', 'exhaustive enumeration of keyed collections on the real join against the definition of an equijoin',
    'Every assignment of 3 keys to up to 3 x 3 elements, and of key subsets to up to 3 x 2 elements, in every kind of container '
    'on either side and every kind of key collection.',
    ['one of key and keys is given; keys are hashable'])

warnings.simplefilter('ignore')

FEEDS = {'list': list, 'tuple': tuple, 'generator': lambda x: (e for e in x), 'iterator': iter, 'map': lambda x: map(lambda e: e, x),
         'dict': lambda x: dict.fromkeys(x), 'set': set}
KEYS = {'list': list, 'tuple': tuple, 'set': set, 'generator': lambda x: (e for e in x), 'iterator': iter, 'frozenset': frozenset}


def go(cx, ka, kb, fa, fb, mode, kk='list'):
    """ka, kb: the key (or tuple of keys) of each left and right element."""
    A = [('L', i) for i in range(len(ka))]
    B = [('R', i) for i in range(len(kb))]
    lookup = {**dict(zip(A, ka)), **dict(zip(B, kb))}
    what = 'hashjoin(%s %r, %s %r, %s %s)' % (fa, ka, fb, kb, mode, kk)
    cx.at(what)
    if mode == 'key':
        got = Counter(hashjoin(FEEDS[fa](A), FEEDS[fb](B), key=lambda x: lookup[x]))
        want = Counter((a, b) for a in A for b in B if lookup[a] == lookup[b])
    else:
        got = Counter(hashjoin(FEEDS[fa](A), FEEDS[fb](B), keys=lambda x: KEYS[kk](lookup[x])))
        want = Counter((a, b) for a in A for b in B if set(lookup[a]) & set(lookup[b]))
    cx.checked += 1
    if got != want:
        cx.fail('%s: pairs %s, expected %s' % (what, sorted(got.elements()), sorted(want.elements())))
    cx.outcomes[frozenset(got.items())] = 1


@check.family('one key', lambda t: [(n, m) for n in range(0, 5) for m in range(0, 5) if n + m <= 7],
              'every assignment of 3 keys (None and the empty string among them) to up to 4 x 3 elements; every container on either side up to 2 x 2')
def single(unit, cx):
    n, m = unit
    ks = ('a', '', None)
    for ka in itertools.product(ks, repeat=n):
        for kb in itertools.product(ks, repeat=m):
            go(cx, ka, kb, 'list', 'list', 'key')
            if n + m <= 5:
                for fa in FEEDS:
                    for fb in FEEDS:
                        go(cx, ka, kb, fa, fb, 'key')
            else:
                go(cx, ka, kb, 'generator', 'generator', 'key')


@check.family('several keys', lambda t: [(n, m, i) for n in range(0, 4) for m in range(0, 4) for i in range(4)],
              'every assignment of subsets of 3 keys (with one repeated key) to up to 3 x 2 elements (3 x 3 with 4 subsets), every container and key collection')
def several(unit, cx):
    n, m, r = unit
    ks = [(), ('a',), ('b',), ('a', 'b'), ('b', 'c'), ('a', 'b', 'c'), ('a', 'a')] if n + m <= 4 else [(), ('a',), ('a', 'b'), ('b', 'c')]
    for q, ka in enumerate(itertools.product(ks, repeat=n)):
        if q % 4 != r:
            continue
        for kb in itertools.product(ks, repeat=m):
            for kk in ('list', 'generator') if n + m > 3 else KEYS:
                go(cx, ka, kb, 'list', 'list', 'keys', kk)
            if n + m <= 4 and (cx.tier != 'quick' or n + m <= 3):
                for fa in FEEDS:
                    for fb in FEEDS:
                        go(cx, ka, kb, fa, fb, 'keys')
            else:
                go(cx, ka, kb, 'list', 'generator', 'keys', 'iterator')
                go(cx, ka, kb, 'generator', 'list', 'keys', 'generator')
                go(cx, ka, kb, 'iterator', 'iterator', 'keys')


@check.family('equal elements, unhashable elements', lambda t: [0], 'elements equal to each other and dictionaries: every occurrence joins')
def equal(unit, cx):
    for n in range(0, 4):
        for m in range(0, 4):
            for fa in ('list', 'generator'):
                for fb in ('list', 'generator'):
                    cx.at(('equal elements', n, m, fa, fb), 2)
                    got = list(hashjoin(FEEDS[fa](['x'] * n), FEEDS[fb](['x'] * m), key=lambda x: x))
                    cx.same(got, [('x', 'x')] * (n * m), 'hashjoin of %d and %d equal elements' % (n, m))
                    A, B = [{'k': i % 2, 'l': 1} for i in range(n)], [{'k': i % 2, 'r': 1} for i in range(m)]
                    got = list(hashjoin(FEEDS[fa](A), FEEDS[fb](B), keys=lambda x: [x['k']]))
                    cx.expect(all('l' in a and 'r' in b and a['k'] == b['k'] for a, b in got), 'sides swapped or keys differ: %r' % got)
                    cx.same(len(got), sum(a['k'] == b['k'] for a in A for b in B), 'number of pairs')


@check.family('sizes', lambda t: [(n, m) for n in (0, 1, 5, 50) for m in (0, 1, 7, 60)] + [(1001, 3), (3, 1001), (1001, 1300)], 'collections of 0 to 60 elements of either side, and of up to 1300 with few matches')
def sizes(unit, cx):
    n, m = unit
    if n + m > 300:
        from collections import defaultdict
        for many in (False, True):
            A = [(i * 7 % n, 'a') for i in range(n)]
            B = [(i * 11 % m, 'b') for i in range(m)]
            left = defaultdict(list)
            for a in A:
                left[a[0]].append(a)
            want = sorted((a, b) for b in B for a in left.get(b[0], ()))
            kw = {'keys': lambda x: [x[0], x[0] - 100000]} if many else {'key': lambda x: x[0]}
            cx.at((n, m, many))
            cx.same(sorted(hashjoin(iter(A), iter(B), **kw)), want, 'hashjoin of %d and %d elements' % (n, m))
        return
    for fa in FEEDS:
        for fb in FEEDS:
            go(cx, [i % 4 for i in range(n)], [i % 3 for i in range(m)], fa, fb, 'key')
            go(cx, [(i % 4, i % 5) for i in range(n)], [(i % 3,) for i in range(m)], fa, fb, 'keys', 'generator')


@check.family('look-alike keys', lambda t: list(range(len(clus.KEYS))),
              'every pair of 38 keys easily mixed up (equal hashes, texts, falsy, equal across types), alone, as keys among others, in any containers')
def alike(unit, cx):
    a = clus.KEYS[unit]
    for b in clus.KEYS:
        go(cx, (a,), (b,), 'list', 'list', 'key')
        go(cx, (a, b), (b, a, 'z'), 'list', 'generator', 'key')
        go(cx, (a, b, 'z'), (b,), 'list', 'tuple', 'key')
        go(cx, ((a,),), ((b,),), 'list', 'list', 'keys')
        go(cx, ((a, 'y'), (b,)), ((b, 'z'), (a,), ()), 'list', 'list', 'keys', 'generator')
        go(cx, ((a, b), ('z',)), ((b, 'y'),), 'generator', 'list', 'keys', 'tuple')
        go(cx, ((), (a,)), ((b,), ()), 'list', 'generator', 'keys', 'list')
        go(cx, ((),), ((a, b), (b,)), 'list', 'list', 'keys', 'set')
