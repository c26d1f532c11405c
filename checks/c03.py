from vp.core import Check
from checks.lev_common import (MAPS, batch, edit_scripts, lev, long_pairs, osa_lte1, pairs_from, render, shapes)
from cfog.metrics import levenshtein_distance_lte1 as lte1, damerau_levenshtein_distance_lte1 as dlte1

check = Check(
    'C03', 'exhaustive enumeration of string pairs on the compiled extension against the definition of one edit',
    'Every pair of strings up to the stated lengths, up to renaming of letters, in every rendering listed, and '
    'every word at most two edits away from longer words.',
    ['distance <= 1 means: equal, or one insertion, deletion, substitution (or adjacent transposition)'])


def spec(tier):
    return [(2, 10, 10), (3, 7, 7), (4, 5, 6), (5, 5, 5)] if tier == 'quick' else [(2, 12, 12), (3, 9, 9), (4, 7, 7), (5, 6, 6)]


def bound(tier):
    return ('all pairs of words over k letters, up to renaming, lengths differing by at most 2: '
            '(k, max |a|, max |b|) in %s' % (spec(tier),))


def compare(cx, a, b, d1, dd1):
    cx.at((a, b), 4)
    r = (lte1(a, b), lte1(b, a), dlte1(a, b), dlte1(b, a))
    cx.checked += 4
    if r[0] != d1 or r[1] != d1:
        cx.fail('levenshtein_distance_lte1(%a, %a) = %r, swapped = %r, expected %r' % (a, b, r[0], r[1], d1))
    if r[2] != dd1 or r[3] != dd1:
        cx.fail('damerau_levenshtein_distance_lte1(%a, %a) = %r, swapped = %r, expected %r' % (a, b, r[2], r[3], dd1))
    cx.outcomes[(d1, dd1)] = 1


@check.family('all small pairs', lambda t: batch(shapes(t, spec(t)), 6), bound)
def small(unit, cx):
    m = MAPS['ascii']
    for k, a, lb in unit:
        sa = render(a, m)
        for b, d in pairs_from(a, k, lb):
            if len(a) <= len(b) <= len(a) + 2:
                compare(cx, sa, render(b, m), d <= 1, d <= 1 or (d == 2 and osa_lte1(a, b)))


@check.family('all small pairs, every character width', lambda t: batch(
    [(name,) + u for name in MAPS for u in shapes(t, [(2, 5, 5), (3, 4, 4), (4, 3, 3)] if t == 'quick' else [(2, 7, 7), (3, 5, 5), (4, 4, 4)])], 12),
    'all pairs over 2 letters up to 5, 3 up to 4, 4 up to 3 (thorough: larger), %d letter maps' % len(MAPS))
def widths(unit, cx):
    for name, k, a, lb in unit:
        m = MAPS[name]
        sa = render(a, m)
        for b, d in pairs_from(a, k, lb):
            compare(cx, sa, render(b, m), d <= 1, d <= 1 or (d == 2 and osa_lte1(a, b)))


BASES = ['abcdefghijkl', 'aaaaaaaaaa', 'abababababab', 'aabbaabbaab', 'abcabcabcabc', 'zyxwvutsrqponmlkjih']


@check.family('edit scripts around long words', lambda t: [(b, i) for b in BASES for i in range(4)],
              'every word at most 2 edits or adjacent swaps away from a base of 10-19 letters')
def scripts(unit, cx):
    base, part = unit
    for w in edit_scripts(base, 'abz', 2)[part::4]:
        d = lev(base, w) if abs(len(w) - len(base)) < 2 else 2
        compare(cx, base, w, d <= 1, osa_lte1(base, w))


@check.family('one edit at every position of long words', lambda t: [15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 513],
              'lengths straddling powers of two; each position, each kind of edit, and one more edit at the ends')
def long_(unit, cx):
    n = unit
    for base in ('ab' * n, 'a' * n, ''.join(chr(0x100 + i) for i in range(n))):
        base = base[:n]
        for i in range(n):
            for w in (base[:i] + base[i + 1:], base[:i] + 'Z' + base[i + 1:], base[:i] + 'Z' + base[i:],
                      base[:i] + base[i + 1:i + 2] + base[i] + base[i + 2:]):
                compare(cx, base, w, lev_lte1(base, w), osa_lte1(base, w))
                for x in ('Y' + w, w + 'Y', 'Y' + w[1:], w[:-1] + 'Y', w[1:], w[:-1]):
                    compare(cx, base, x, lev_lte1(base, x), osa_lte1(base, x))


def lev_lte1(a, b):
    if a == b:
        return True
    if abs(len(a) - len(b)) > 1:
        return False
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    if len(a) == len(b):
        return a[i + 1:] == b[i + 1:]
    if len(a) > len(b):
        a, b = b, a
    return a[i:] == b[i + 1:]


@check.family('equal strings', lambda t: [0], 'same object and equal but distinct objects')
def equal(unit, cx):
    for name, m in MAPS.items():
        for n in (0, 1, 2, 3, 8, 255, 256, 257, 70000):
            a = (m * (n // len(m) + 1))[:n]
            b = ''.join(list(a))
            compare(cx, a, a, True, True)
            compare(cx, a, b, True, True)
