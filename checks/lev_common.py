"""Enumeration of string pairs and the textbook reference for the edit distance checks."""
import itertools


def lev(a, b):
    """Textbook dynamic programme."""
    if len(a) > len(b):
        a, b = b, a
    row = list(range(len(a) + 1))
    for j, cb in enumerate(b):
        new = [j + 1]
        for i, ca in enumerate(a):
            x = row[i] + (ca != cb)
            y = row[i + 1] + 1
            z = new[i] + 1
            new.append(min(x, y, z))
        row = new
    return row[-1]


def osa_lte1(a, b):
    """Damerau-Levenshtein distance <= 1, straight from the definition: equal, or one edit or one
    transposition of adjacent characters turns a into b."""
    if a == b:
        return True
    la, lb = len(a), len(b)
    if lb == la:
        diff = [i for i in range(la) if a[i] != b[i]]
        if len(diff) == 1:
            return True
        return (len(diff) == 2 and diff[1] == diff[0] + 1 and
                a[diff[0]] == b[diff[1]] and a[diff[1]] == b[diff[0]])
    if abs(la - lb) != 1:
        return False
    if la > lb:
        a, b = b, a
    return any(b[:i] + b[i + 1:] == a for i in range(len(b)))


def canonical_words(k, n):
    """Words over 0..k-1 of length n whose letters first appear in the order 0, 1, 2, ..."""
    def rec(prefix, used):
        if len(prefix) == n:
            yield prefix
            return
        for c in range(min(used + 1, k)):
            yield from rec(prefix + (c,), max(used, c + 1))
    yield from rec((), 0)


def pairs_from(a, k, max_b):
    """Every word b over 0..k-1 with len(b) <= max_b, together with lev(a, b), computed by extending the
    last row of the dynamic programme letter by letter. a is canonical; b is only required to introduce
    new letters in order, so that each pair is met once up to renaming of letters."""
    used = max(a) + 1 if a else 0
    la = len(a)

    def rec(b, row, used):
        yield b, row[la]
        if len(b) == max_b:
            return
        for c in range(min(used + 1, k)):
            new = [row[0] + 1]
            left = new[0]
            for i in range(la):
                v = row[i] + (a[i] != c)
                w = row[i + 1]
                if w < v - 1:
                    v = w + 1
                if left < v - 1:
                    v = left + 1
                new.append(v)
                left = v
            yield from rec(b + (c,), new, max(used, c + 1))
    yield from rec((), list(range(la + 1)), used)


# Renderings of the letters 0, 1, 2, ...: plain letters, letters that collide modulo 2**8 or 2**16, every
# internal width CPython uses for a string (1, 2 and 4 bytes), surrogates and NUL.
MAPS = {
    'ascii': 'abcdefgh',
    'latin1': '\xe9\xe8ab',
    'mod256': 'a\u0161\u0261\u0361',
    'mod65536': 'a\U00010061\U00020061b',
    'astral': '\U0001F600\U0001F601\U0001F602\U0001F603',
    'astral2': '\U0001F600\uF600ab',
    'nul': '\x00\U00010000\u0100a',
    'surrogate': '\ud800\udc00\U00010000a',
    'bmp': '\u4e2d\u82f1\u570b\uffff',
    'case': 'aA\xe0\xc0',
}


def render(t, m):
    return ''.join([m[c] for c in t])


def edit_scripts(base, alphabet, depth):
    """Everything reachable from base with at most `depth` single-character edits (set)."""
    seen = {base}
    front = {base}
    for _ in range(depth):
        nxt = set()
        for s in front:
            for i in range(len(s) + 1):
                for c in alphabet:
                    nxt.add(s[:i] + c + s[i:])
                    if i < len(s):
                        nxt.add(s[:i] + c + s[i + 1:])
                if i < len(s):
                    nxt.add(s[:i] + s[i + 1:])
                if i + 1 < len(s):
                    nxt.add(s[:i] + s[i + 1] + s[i] + s[i + 2:])
        front = nxt - seen
        seen |= nxt
    return sorted(seen, key=lambda s: (len(s), s))


def long_pairs(tier):
    """Pairs whose lengths, common prefixes and distances straddle the powers of two at which a too small
    integer type or a fixed buffer would give way: (name, a, b, distance)."""
    out = []
    sizes = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513]
    if tier == 'thorough':
        sizes += [1000, 1023, 1024, 1025]
    for n in sizes:
        # distance n: nothing in common, and lengths n vs n, n vs 2, n vs 1, n vs 0
        out.append(('disjoint', 'a' * n, 'b' * n, n))
        out.append(('disjoint2', 'ab', 'c' * n, n))
        out.append(('contains2', 'xy', 'x' + 'c' * n + 'y' + 'x', n + 1))
        out.append(('one', 'z', 'c' * n, n))
        out.append(('empty', '', 'c' * n, n))
        out.append(('one-in', 'z', 'c' * n + 'z' + 'd', n + 1))
        # common prefix and suffix of length n around small cores
        for x, y in (('ab', 'ba'), ('abc', 'xbz'), ('a', 'bc'), ('ab', ''), ('abcd', 'bcde'), ('ab', 'cdef')):
            d = lev(x, y)
            p, s = 'p' * n, 's' * n
            out.append(('prefix', p + x, p + y, d))
            out.append(('suffix', x + s, y + s, d))
            out.append(('both', p + x + s, p + y + s, d))
            out.append(('prefix-same-letters', 'a' * n + x, 'a' * n + y, None))
            out.append(('suffix-same-letters', x + 'b' * n, y + 'b' * n, None))
        # shifted periodic words: distance 2 with no common prefix or suffix
        w = ''.join('abcdefgh'[i % 8] for i in range(n))
        out.append(('shift', w, w[1:] + 'z', None))
        out.append(('shift2', 'y' + w, w + 'z', None))
        out.append(('astral-shift', '\U0001F600' + w, w + '\U0001F601', None))
    for n in (65533, 65534, 65535, 65536, 65537, 70000):
        out.append(('huge-empty', '', 'c' * n, n))
        out.append(('huge-one', 'z', 'c' * n, n))
        out.append(('huge-disjoint2', 'ab', 'c' * n, n))
        out.append(('huge-prefix', 'p' * n + 'ab', 'p' * n + 'ba', 2))
        out.append(('huge-suffix', 'abc' + 's' * n, 'xbz' + 's' * n, 2))
        out.append(('huge-both', 'p' * n + 'abc' + 's' * n, 'p' * n + 'xbzz' + 's' * n, 3))
    return out  # the distance None is computed by the worker, with lev


def shapes(tier, spec):
    """spec: list of (alphabet size, max len a, max len b)."""
    units = []
    for k, la, lb in spec:
        for n in range(la + 1):
            for a in canonical_words(k, n):
                units.append((k, a, lb))
    return units


def batch(units, size):
    return [units[i:i + size] for i in range(0, len(units), size)]
