from vp.core import Check
from checks.lev_common import (MAPS, batch, edit_scripts, lev, long_pairs, pairs_from, render, shapes)
from cfog.metrics import limited_levenshtein_distance as limited

check = Check(
    'C02', 'exhaustive enumeration of (bound, string pair) on the compiled extension against the textbook recurrence',
    'Every bound and every pair of strings up to the stated lengths, up to renaming of letters, in every '
    'rendering listed, and structured long pairs.',
    ['the textbook recurrence in checks/lev_common.py is the definition of the Levenshtein distance'])


def spec(tier):
    return [(2, 9, 9), (3, 6, 7), (4, 5, 6)] if tier == 'quick' else [(2, 11, 12), (3, 8, 8), (4, 6, 7), (5, 6, 6)]


def bound(tier):
    return ('all pairs of words over k letters, up to renaming, with every bound from 0 to max length + 1 and '
            'two huge bounds: (k, max |a|, max |b|) in %s' % (spec(tier),))


def compare(cx, m, a, b, d):
    cx.at((m, a, b), 2)
    want = d if d <= m else m + 1
    x = limited(m, a, b)
    y = limited(m, b, a)
    cx.checked += 2
    if x != want or y != want:
        cx.fail('limited_levenshtein_distance(%d, %a, %a) = %r, swapped = %r, expected %d (real distance %d)'
                % (m, a, b, x, y, want, d))


HUGE = (1000, 2 ** 31)


@check.family('all small pairs and bounds', lambda t: batch(shapes(t, spec(t)), 4), bound)
def small(unit, cx):
    mp = MAPS['ascii']
    for k, a, lb in unit:
        sa = render(a, mp)
        for b, d in pairs_from(a, k, lb):
            if len(b) < len(a):
                continue
            sb = render(b, mp)
            for m in range(len(b) + 2):
                compare(cx, m, sa, sb, d)
                cx.outcomes[(m, d)] = 1
            for m in HUGE:
                compare(cx, m, sa, sb, d)


@check.family('all small pairs and bounds, every character width', lambda t: batch(
    [(name,) + u for name in MAPS for u in shapes(t, [(2, 6, 6), (3, 4, 5)] if t == 'quick' else [(2, 8, 8), (3, 6, 6)])], 12),
    'all pairs over 2 letters up to 6 and over 3 up to 4/5 (thorough: 8 and 6), every bound, %d letter maps' % len(MAPS))
def widths(unit, cx):
    for name, k, a, lb in unit:
        mp = MAPS[name]
        sa = render(a, mp)
        for b, d in pairs_from(a, k, lb):
            sb = render(b, mp)
            for m in range(max(len(a), len(b)) + 2):
                compare(cx, m, sa, sb, d)
                cx.outcomes[(m, d)] = 1


BASES = ['abcdefghijkl', 'aaaaaaaaaa', 'abababababab', 'aabbaabbaab', 'abcabcabcabc']


@check.family('edit scripts around long words', lambda t: [(b, i) for b in BASES for i in range(4)],
              'every word at most 2 edits or adjacent swaps away from a base of 10-12 letters, bounds 0..6')
def scripts(unit, cx):
    base, part = unit
    for w in edit_scripts(base, 'abz', 2)[part::4]:
        d = lev(base, w)
        for m in range(7):
            compare(cx, m, base, w, d)
            cx.outcomes[(m, d)] = 1


@check.family('rotations and blocks', lambda t: list(range(1, 13 if t == 'quick' else 17)),
              'two words u+v and v+w for all block lengths: the alignment runs along the edge of the band')
def rotations(unit, cx):
    base = 'abcdefghijklmnop'
    n = unit
    for i in range(n + 1):
        for j in range(0, 5):
            a = base[:n]
            for b in (a[i:] + a[:i], a[i:] + 'z' * j, 'z' * j + a[:n - i], 'z' * j + a[i:] + 'y' * j,
                      a[:i] + 'z' * j + a[i:], a[:i] + 'z' * j + a[i + j:]):
                d = lev(a, b)
                for m in range(0, d + 3):
                    compare(cx, m, a, b, d)
                    cx.outcomes[(m, d)] = 1


@check.family('structured long pairs', lambda t: batch(long_pairs(t), 6),
              'lengths and distances straddling 16, 32, 64, 128, 256, 512 and 65536; bounds around the distance')
def long_(unit, cx):
    for name, a, b, d in unit:
        d = lev(a, b) if d is None else d
        for m in sorted({0, 1, 2, max(d - 1, 0), d, d + 1, d + 5, len(a), len(b), 255, 256, 65535, 65536}):
            compare(cx, m, a, b, d)
            cx.outcomes[(m, d)] = 1


@check.family('equal strings', lambda t: [0], 'same object and equal but distinct objects, bounds 0..3')
def equal(unit, cx):
    for name, mp in MAPS.items():
        for n in (0, 1, 2, 3, 8, 255, 256, 257, 70000):
            a = (mp * (n // len(mp) + 1))[:n]
            b = ''.join(list(a))
            for m in range(4):
                compare(cx, m, a, a, 0)
                compare(cx, m, a, b, 0)
