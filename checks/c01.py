from vp.core import Check
from checks.lev_common import (MAPS, batch, edit_scripts, lev, long_pairs, pairs_from, render, shapes)
from cfog.metrics import levenshtein_distance

check = Check(
    'C01', 'exhaustive enumeration of string pairs on the compiled extension against the textbook recurrence',
    'Every pair of strings up to the stated lengths, up to renaming of letters, in every rendering listed, and '
    'structured long pairs. Longer pairs outside those families are not covered.',
    ['the textbook recurrence in checks/lev_common.py is the definition of the Levenshtein distance'])


def spec(tier):
    return [(2, 10, 10), (3, 7, 8), (4, 6, 6), (5, 5, 6)] if tier == 'quick' else [(2, 12, 13), (3, 9, 9), (4, 7, 8), (5, 6, 7), (6, 6, 6)]


def bound(tier):
    return 'all pairs of words over k letters, up to renaming: (k, max |a|, max |b|) in %s' % (spec(tier),)


def compare(cx, a, b, d):
    cx.at((a, b), 2)
    x = levenshtein_distance(a, b)
    y = levenshtein_distance(b, a)
    cx.checked += 2
    if x != d or y != d:
        cx.fail('levenshtein_distance(%a, %a) = %r, swapped = %r, expected %d' % (a, b, x, y, d))


@check.family('all small pairs', lambda t: batch(shapes(t, spec(t)), 6), bound)
def small(unit, cx):
    m = MAPS['ascii']
    for k, a, lb in unit:
        sa = render(a, m)
        for b, d in pairs_from(a, k, lb):
            if len(b) >= len(a):
                compare(cx, sa, render(b, m), d)
            cx.outcomes[d] = 1


@check.family('all small pairs, every character width', lambda t: batch(
    [(name,) + u for name in MAPS for u in shapes(t, [(2, 6, 6), (3, 5, 5), (4, 4, 4)] if t == 'quick' else [(2, 8, 8), (3, 6, 6), (4, 5, 5)])], 12),
    'all pairs over 2 letters up to 6, over 3 up to 5, over 4 up to 4 (thorough: 8, 6, 5), rendered with %d letter maps' % len(MAPS))
def widths(unit, cx):
    for name, k, a, lb in unit:
        m = MAPS[name]
        sa = render(a, m)
        for b, d in pairs_from(a, k, lb):
            compare(cx, sa, render(b, m), d)
            cx.outcomes[d] = 1


BASES = ['abcdefghijkl', 'aaaaaaaaaa', 'abababababab', 'aabbaabbaab', 'abcabcabcabc']


@check.family('edit scripts around long words', lambda t: [(b, i) for b in BASES for i in range(4)],
              'every pair (base, word) where word is at most 2 edits or adjacent swaps away from a base of 10-12 '
              'letters, 3 replacement letters')
def scripts(unit, cx):
    base, part = unit
    for w in edit_scripts(base, 'abz', 2)[part::4]:
        d = lev(base, w)
        compare(cx, base, w, d)
        cx.outcomes[d] = 1


@check.family('structured long pairs', lambda t: batch(long_pairs(t), 6),
              'lengths and distances straddling 16, 32, 64, 128, 256, 512 and 65536')
def long_(unit, cx):
    for name, a, b, d in unit:
        d = lev(a, b) if d is None else d
        compare(cx, a, b, d)
        cx.outcomes[d] = 1


@check.family('equal strings', lambda t: [0], 'same object and equal but distinct objects')
def equal(unit, cx):
    for name, m in MAPS.items():
        for n in (0, 1, 2, 3, 8, 255, 256, 257, 70000):
            a = (m * (n // len(m) + 1))[:n]
            b = ''.join(list(a))
            compare(cx, a, a, 0)
            compare(cx, a, b, 0)
