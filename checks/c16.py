import itertools
from collections import Counter

from vp.core import Check
from checks import clus
from fog.clustering import key_collision

check = Check(
    'C16', 'exhaustive enumeration of key assignments on the real clusterer against grouping by definition',
    'Every assignment of keys (including falsy ones) to up to 6 items and of key tuples to up to 4 items, merged '
    'and not, all size bounds.',
    ['merging several keys per item needs distinct hashable items'])

FALSY = ['', None, 0, ()]


def buckets(assign):
    """assign: list of collections of keys."""
    out = {}
    for i, ks in enumerate(assign):
        for k in set(ks or ()):
            if k:
                out.setdefault(k, []).append(i)
    return out


@check.family('one key per item', lambda t: [(n, i) for n in range(0, 6 if t == 'quick' else 7) for i in range(16)],
              'every assignment of 5 keys (two of them falsy) to up to 5 (thorough 6) items, all size bounds, repeated items too')
def single(unit, cx):
    n, r = unit
    keys = ['a', 'b', ('t', 1), '', None]
    for assign in list(itertools.product(keys, repeat=n))[r::16]:
        for mn, mx in clus.SIZES[:6] + [(1, clus.INF), (1, 1)]:
            want = Counter(tuple(b) for b in buckets([[k] for k in assign]).values() if mn <= len(b) <= mx)
            cx.at(('key', assign, mn, mx))
            got = Counter(tuple(sorted(c)) for c in key_collision(range(n), key=lambda x: assign[x], min_size=mn, max_size=mx))
            cx.same(got, want, 'key_collision with keys %r, sizes %s %s' % (assign, mn, mx))
            cx.outcomes[frozenset(got.items())] = 1
            # the same through keys=, not merged
            cx.at(('keys', assign, mn, mx))
            got = Counter(tuple(sorted(c)) for c in key_collision(
                list(range(n)), keys=lambda x: [assign[x]], merge=False, min_size=mn, max_size=mx))
            cx.same(got, want, 'key_collision with single key lists %r, not merged, sizes %s %s' % (assign, mn, mx))
            # equal items at several positions are all kept
        items = ['v'] * n
        it = iter(assign)
        cx.at(('repeated items', assign))
        got = Counter(tuple(c) for c in key_collision(items, key=lambda x: next(it)))
        want = Counter(('v',) * len(b) for b in buckets([[k] for k in assign]).values() if len(b) >= 2)
        cx.same(got, want, 'repeated items, keys %r' % (assign,))


@check.family('several keys per item', lambda t: [(n, i) for n in range(0, 5) for i in range(64)],
              'every assignment of key lists (subsets of 3 keys, falsy keys, no keys) to up to 3 items and of 6 lists to 4 items, merged and not')
def several(unit, cx):
    n, r = unit
    lists = [(), None, ('a',), ('b',), ('a', 'b'), ('b', 'c'), ('a', 'c'), ('a', 'b', 'c'), ('', 'a'), (None,), ('c', '', 'b')]
    if n == 4 and cx.tier == 'quick':
        lists = [None, ('a',), ('a', 'b'), ('b', 'c'), ('', 'c'), ('a', 'c')]
    for assign in list(itertools.product(lists, repeat=n))[r::64]:
        bs = buckets(assign)
        edges = frozenset(p for b in bs.values() for p in itertools.combinations(b, 2))
        for mn, mx in clus.SIZES[:5]:
            want = clus.expect_components(n, edges, mn, mx)
            cx.at(('merged', assign, mn, mx))
            got = clus.as_counter(list(key_collision(range(n), keys=lambda x: assign[x], min_size=mn, max_size=mx)))
            cx.same(got, want, 'key_collision with keys %r merged, sizes %s %s' % (assign, mn, mx))
            cx.outcomes[frozenset(got.items())] = 1
            want = Counter(tuple(b) for b in bs.values() if mn <= len(b) <= mx)
            cx.at(('not merged', assign, mn, mx))
            got = Counter(tuple(sorted(c)) for c in key_collision(
                (x for x in range(n)), keys=lambda x: assign[x], merge=False, min_size=mn, max_size=mx))
            cx.same(got, want, 'key_collision with keys %r not merged, sizes %s %s' % (assign, mn, mx))


@check.family('repeated keys and key containers', lambda t: list(range(16)),
              '3 items with repeated keys, as list, tuple, generator, set, string, merged and not')
def repeats(unit, cx):
    n = 3
    lists = ['a', 'aa', 'ab', 'aba', 'bab', 'abab', '', 'ccb']
    for assign in list(itertools.product(lists, repeat=n))[unit::16]:
        bs = buckets(assign)
        edges = frozenset(p for b in bs.values() for p in itertools.combinations(b, 2))
        for mk in (list, tuple, str, set, lambda s: (c for c in s), lambda s: dict.fromkeys(s)):
            cx.at(('repeated', assign, 'merged'))
            got = clus.as_counter(list(key_collision(range(n), keys=lambda x: mk(assign[x]))))
            cx.same(got, clus.expect_components(n, edges), 'keys %r merged' % (assign,))
            cx.at(('repeated', assign, 'not merged'))
            got = Counter(tuple(sorted(c)) for c in key_collision(range(n), keys=lambda x: mk(assign[x]), merge=False))
            cx.same(got, Counter(tuple(b) for b in bs.values() if len(b) >= 2), 'keys %r not merged' % (assign,))


@check.family('large buckets', lambda t: [63, 64, 65, 100, 257, 1000, 5001], 'one bucket of n, n chained buckets of 2, buckets of 3')
def large(unit, cx):
    n = unit
    cases = {'one': [('k',)] * n, 'chain': [(i, i + 1) for i in range(1, n + 1)], 'three': [(1 + i // 3,) for i in range(n)]}
    for name, assign in cases.items():
        bs = buckets(assign)
        cx.at((name, n))
        got = clus.as_counter(list(key_collision(range(n), keys=lambda x: assign[x])))
        edges = frozenset(p for b in bs.values() for p in zip(b, b[1:]))
        cx.same(got, clus.expect_components(n, edges), '%s %d merged' % (name, n))
        cx.at((name, n))
        got = Counter(tuple(sorted(c)) for c in key_collision(range(n), keys=lambda x: assign[x], merge=False))
        cx.same(got, Counter(tuple(b) for b in bs.values() if len(b) >= 2), '%s %d not merged' % (name, n))


@check.family('look-alike keys and items', lambda t: list(range(len(clus.KEYS))),
              'every pair of 38 keys easily mixed up (equal hashes, texts, falsy, equal across types) over items easily mixed up')
def alike(unit, cx):
    a = clus.KEYS[unit]
    for b in clus.KEYS:
        for r in range(0, len(clus.ITEMS), 4):
            items = clus.ITEMS[r:] + clus.ITEMS[:r]
            items = items[:4]
            for assign in ((a, b, a, b), (a, a, b, b), (a, b, b, 'z')):
                key = lambda x: next(k for y, k in zip(items, assign) if y is x)
                bs = buckets([[k] for k in assign])
                want = Counter(tuple(items[i] for i in b) for b in bs.values() if len(b) >= 2)
                cx.at(('look-alike', items, assign), 2)
                got = Counter(tuple(c) for c in key_collision(items, key=key))
                cx.same(got, want, 'key_collision(%r) with keys %r' % (items, assign))
                got = Counter(frozenset(c) for c in key_collision(items, keys=lambda x: (key(x), 'y' if x is items[3] else '')))
                want = clus.expect_components(4, frozenset(p for b in bs.values() for p in itertools.combinations(b, 2)))
                cx.same(got, Counter({frozenset(items[i] for i in c): m for c, m in want.items()}), 'key_collision(%r) merged with keys %r' % (items, assign))


@check.family('chains', lambda t: [400, 1200, 2500] if t == 'quick' else [400, 1200, 2500, 6000],
              'chains of 400 to 2500 (thorough 6000) items, each similar to the next only, in 3 orders: one cluster')
def chains(unit, cx):
    for order in (range(unit), range(unit - 1, -1, -1), sorted(range(unit), key=lambda i: (i * 7919 % unit, i))):
        cx.at(('chain', unit, order[0], order[1]))
        got = [sorted(c) for c in key_collision(list(order), keys=lambda x: (-x - 1, -x - 2))]
        cx.expect(got == [list(range(unit))], 'a chain of %d items, each similar to the next, is not one cluster: %s' % (unit, [len(c) for c in got]))
