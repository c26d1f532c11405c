import itertools

from vp.core import Check, words
from checks import clus
from checks.lev_common import lev as _lev
from fog.clustering import passjoin

check = Check(
    'C10', 'exhaustive enumeration of sets of strings on the real join against the brute-force Levenshtein join',
    'Every pair of strings up to the stated lengths, every triple of short strings in every order, whole '
    'neighbourhoods of longer strings, thresholds 0 to 5, sorted and unsorted, both modes and all size bounds.',
    ['items are distinct strings; the distance given is the Levenshtein distance'])

_memo = {}


def lev(a, b):
    k = (a, b)
    r = _memo.get(k)
    if r is None:
        if len(_memo) > 300000:
            _memo.clear()
        r = _memo[k] = _memo[(b, a)] = _lev(a, b)
    return r


def judge(cx, what, data, k, got, mode='connected_components', mn=2, mx=clus.INF):
    n = len(data)
    idx = {w: i for i, w in enumerate(data)}
    edges = frozenset((i, j) for i in range(n) for j in range(i + 1, n)
                      if abs(len(data[i]) - len(data[j])) <= k and lev(data[i], data[j]) <= k)
    got = [[idx[x] for x in c] for c in got]
    cx.checked += 1
    if mode == 'connected_components':
        want = clus.expect_components(n, edges, mn, mx)
        if clus.as_counter(got) != want:
            cx.fail('%s: %s, expected %s' % (what, [[data[i] for i in c] for c in got],
                                             [[data[i] for i in c] for c in want.elements()]))
    else:
        bad = clus.fuzzy_problem(n, edges, got, mn, mx)
        if bad:
            cx.fail('%s: %s' % (what, bad))
    return got


def pair_words(t):
    return [list(words('ab', 0, 8 if t == 'quick' else 9)), list(words('abc', 0, 5 if t == 'quick' else 6))]


@check.family('all pairs of strings', lambda t: [(a, k, i) for a in (0, 1) for k in range(0, 6) for i in range(24)],
              'every ordered pair of distinct strings over {a,b} up to length 8 (thorough 9) and {a,b,c} up to 5 (thorough 6), '
              'k 0..5; in the given order unsorted, and sorted')
def pairs(unit, cx):
    a, k, r = unit
    ws = pair_words(cx.tier)[a]
    if cx.tier == 'quick' and a == 0 and k > 3:
        ws = [w for w in ws if len(w) <= 6]
    for x in ws[r::24]:
        for y in ws:
            if x == y:
                continue
            near = abs(len(x) - len(y)) <= k and lev(x, y) <= k
            for sort in ((False, True) if x < y else (False,)):
                cx.at(('passjoin', [x, y], k, 'sort', sort))
                got = list(passjoin([x, y], k, lev, sort=sort))
                cx.checked += 1
                if (len(got), sorted(got[0]) if got else []) != ((1, sorted([x, y])) if near else (0, [])):
                    cx.fail('passjoin([%r, %r], %d, sort=%s) = %r but their distance is %d' % (x, y, k, sort, got, lev(x, y)))


@check.family('all triples of short strings', lambda t: [(k, i) for k in range(0, 4) for i in range(16)],
              'every ordered triple of distinct strings over {a,b} up to length 3, k 0..3, sorted and not, both modes, size bounds')
def triples(unit, cx):
    k, r = unit
    ws = list(words('ab', 0, 3))
    for data in list(itertools.permutations(ws, 3))[r::16]:
        for sort in (True, False):
            for mode in ('connected_components', 'fuzzy_clusters'):
                for mn, mx in ((2, clus.INF), (3, clus.INF), (2, 2)):
                    cx.at(('passjoin', data, k, sort, mode, mn, mx))
                    got = list(passjoin(list(data), k, lev, sort=sort, mode=mode, min_size=mn, max_size=mx))
                    judge(cx, 'passjoin(%r, k=%d, sort=%s, mode=%s, sizes %s %s)' % (data, k, sort, mode, mn, mx),
                          data, k, got, mode, mn, mx)
                    cx.outcomes[(k, mode, len(got), tuple(sorted(map(len, got))))] = 1


@check.family('subsets of a universe', lambda t: [(k, i) for k in (1, 2, 3) for i in range(16)],
              'every subset of 9 strings of lengths 0..8 sharing segments, k 1..3, both modes, from a generator')
def universe(unit, cx):
    k, r = unit
    pool = ['', 'a', 'ab', 'abab', 'baba', 'ababab', 'aababab', 'bababab', 'abababab']
    for mask in range(r, 1 << len(pool), 16):
        data = [w for i, w in enumerate(pool) if mask >> i & 1]
        for sort in (True, False):
            for mode in ('connected_components', 'fuzzy_clusters'):
                cx.at(('passjoin', data, k, sort, mode))
                got = list(passjoin((w for w in data), k, lev, sort=sort, mode=mode))
                judge(cx, 'passjoin(%r, k=%d, sort=%s, mode=%s)' % (data, k, sort, mode), data, k, got, mode)


def edits(w, alphabet):
    out = set()
    for i in range(len(w) + 1):
        for c in alphabet:
            out.add(w[:i] + c + w[i:])
            if i < len(w):
                out.add(w[:i] + c + w[i + 1:])
        if i < len(w):
            out.add(w[:i] + w[i + 1:])
    out.discard(w)
    return sorted(out)


BASES = ['abcdefghij', 'aaaaaaaaaa', 'abababababab', 'aabbaabbaa', 'abcabcabca', 'abacabadabac', 'aaaaabbbbb', 'abcdefghijklmn']


@check.family('neighbourhoods of long strings', lambda t: [(b, k, i) for b in BASES for k in (1, 2, 3) for i in range(8)],
              'long strings with every string at 1 edit (k 1..3) and a stride of those at 2 and 3 edits, alone with the string')
def longer(unit, cx):
    b, k, r = unit
    one = edits(b, 'abz')
    two = sorted({y for x in one[::3] for y in edits(x, 'az')[::4]} - {b})
    three = sorted({y for x in two[::5] for y in edits(x, 'bz')[::9]} - {b})
    step = 1
    for y in (one + two[::step] + three[::step])[r::8]:
        for data in ([b, y], [y, b]):
            cx.at(('passjoin', data, k))
            judge(cx, 'passjoin(%r, k=%d, sort=False)' % (data, k), data, k, list(passjoin(data, k, lev, sort=False)))
        judge(cx, 'passjoin(%r, k=%d)' % (data, k), data, k, list(passjoin(data, k, lev)))


@check.family('whole populations', lambda t: [(p, k, o, m) for p in range(4) for k in (1, 2) for o in range(4)
                                              for m in ('connected_components', 'fuzzy_clusters')],
              'all strings over {a,b} up to length 5; long strings with their neighbourhoods; in 4 orders, sorted and not')
def populations(unit, cx):
    p, k, o, mode = unit
    data = [list(words('ab', 0, 5)), BASES + edits(BASES[0], 'z')[::2], sorted(edits('aabbab', 'ab')),
            ['w%05d' % (i * 7919 % 100000) for i in range(60)]][p]
    data = sorted(set(data))
    data = [data, data[::-1], data[::2] + data[1::2], sorted(data, key=lambda w: (len(w), w[::-1]))][o]
    for sort in (True, False):
        for mn, mx in ((2, clus.INF), (3, 6)):
            cx.at(('population', p, k, o, mode, sort, mn, mx))
            got = list(passjoin(iter(data), k, lev, sort=sort, mode=mode, min_size=mn, max_size=mx))
            judge(cx, 'passjoin of population %d order %d k=%d sort=%s mode=%s' % (p, o, k, sort, mode), data, k, got, mode, mn, mx)


@check.family('large collections', lambda t: [(n, k, o) for n in (300, 513, 1001) + ((3001, 5001) if t != 'quick' else ()) for k in (1, 2, 3) for o in (0, 1)],
              '300 to 1001 (thorough 5001) strings in groups of 3 at one edit of each other, two strings at the far ends, sorted and not')
def collections(unit, cx):
    n, k, o = unit
    # groups are far apart: eight letters spell the number of the group, each of them three times
    data = []
    for i in range((n + 2) // 3):
        w = ''.join(c * 4 for c in '%05d' % (i * 40503 % 100000))
        data += [w, w[:3 + i % 15] + 'x' + w[4 + i % 15:], w[:7] + w[8:]]
    data = data[:n]
    data = data[::2] + data[1::2][::-1] if o else data
    want = [set(data[i] for i in c) for c in clus.components(n, frozenset(e for e in _near(data, k)))]
    want = sorted(sorted(c) for c in want if len(c) > 1)
    for sort in (True, False):
        cx.at(('large', n, k, o, sort))
        got = sorted(sorted(c) for c in passjoin(iter(data), k, lev, sort=sort))
        cx.same(got, want, 'passjoin of %d strings, k=%d, order %d, sort=%s' % (n, k, o, sort))


def _near(data, k):
    """Brute force, but only between strings of which the counts of letters do not rule it out."""
    from collections import Counter
    bags = [Counter(w) for w in data]
    for i, j in itertools.combinations(range(len(data)), 2):
        a, b = bags[i], bags[j]
        if abs(len(data[i]) - len(data[j])) <= k and sum(abs(a[c] - b[c]) for c in '0123456789x') <= 2 * k and _lev(data[i], data[j]) <= k:
            yield i, j


@check.family('very long strings', lambda t: [(n, k) for n in (60, 127, 128, 129, 255, 256, 257, 300) + ((1000, 5000) if t != 'quick' else ()) for k in (1, 2, 3)],
              'strings of 60 to 300 (thorough 5000) letters with edits at every eighth of their length, at most k of them or one more')
def verylong(unit, cx):
    n, k = unit
    w = ''.join('abcde'[(i * i + i // 7) % 5] for i in range(n))
    places = sorted({i * (n - 1) // 8 for i in range(9)})
    for e in (k, k + 1):
        for at in itertools.combinations(places, e):
            for kinds in itertools.product('ids', repeat=e) if n <= 300 and e < 3 else [('s',) * e, ('i',) * e, ('d',) * e, ('i', 'd', 's', 'd')[:e]]:
                v = w
                for p, kind in sorted(zip(at, kinds), reverse=True):
                    v = v[:p] + ('' if kind == 'd' else 'z') + v[p + (kind != 'i'):]
                cx.at(('very long', n, k, at, kinds), 1)
                near = clus_lev(w, v, k)
                got = [set(c) for c in passjoin([v, w], k, lambda a, b: near, sort=False)]
                cx.same(got, [{v, w}] if near <= k else [], 'passjoin of two strings of %d letters, k=%d, edits %r at %r' % (n, k, kinds, at))


def clus_lev(a, b, k):
    """The distance, by the reference, without what both strings begin and end with."""
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    a, b = a[i:], b[i:]
    j = 0
    while j < min(len(a), len(b)) and a[-1 - j] == b[-1 - j]:
        j += 1
    a, b = a[:len(a) - j], b[:len(b) - j]
    # only the cells at most k + 1 off the diagonal can matter
    row = {y: y for y in range(k + 2)}
    for x in range(1, len(a) + 1):
        new = {}
        for y in range(max(0, x - k - 1), min(len(b), x + k + 1) + 1):
            best = x if y == 0 else min(row.get(y - 1, k + 1) + (a[x - 1] != b[y - 1]), new.get(y - 1, k + 1) + 1)
            new[y] = min(best, row.get(y, k + 1) + 1)
        row = new
    return row.get(len(b), k + 1)


@check.family('chains', lambda t: [(1500, 12), (2500, 13)], 'Gray codes of 12 and 13 letters, each at one edit of the next, in 2 orders: one cluster')
def chains(unit, cx):
    n, w = unit
    strings = [format(i ^ (i >> 1), '0%db' % w) for i in range(n)]
    for data, sort in ((strings, False), (strings[::-1], True)):
        cx.at(('chain', n, sort))
        got = [sorted(c) for c in passjoin(data, 1, lambda a, b: sum(x != y for x, y in zip(a, b)), sort=sort)]
        cx.expect(got == [sorted(strings)], 'a chain of %d strings, each at one edit of the next, is not one cluster: %s' % (n, [len(c) for c in got]))
