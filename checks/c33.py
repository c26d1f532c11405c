import itertools
from fractions import Fraction
from statistics import StatisticsError

from vp.core import Check, words
from fog.utils import OnlineMean, squeeze

check = Check(
    'C33', 'exhaustive enumeration of the histories of the real running mean against exact arithmetic; of strings for squeeze',
    'Every history of 5 (thorough 6) operations out of 14 on two running means; every string of up to 7 (thorough 8) of 7 characters, with and without roman numerals, '
    'and every character doubled and tripled.',
    ['values are dyadic rationals, so that float sums are exact', 'only values that were added are subtracted'])

VALUES = (1, -2, 0.5)


class Pair(object):
    __slots__ = ('m', 'v')

    def __init__(self):
        self.m = [OnlineMean(), OnlineMean()]
        self.v = [[], []]


def state(cx, what, m, v):
    cx.checked += 1
    if len(m) != len(v):
        cx.fail('%s: length %r, expected %d' % (what, len(m), len(v)))
    if not v:
        for f in (m.peek, lambda: float(m)):
            try:
                got = f()
            except StatisticsError:
                continue
            cx.fail('%s: the mean of nothing is %r' % (what, got))
        return
    want = float(sum(map(Fraction, v)) / len(v))
    if abs(m.peek() - want) > 1e-12 or abs(float(m) - want) > 1e-12:
        cx.fail('%s: mean %r, expected %r of %r' % (what, m.peek(), want, v))


OPS = ([('add', i, x) for i in (0, 1) for x in VALUES] + [('sub', i, x) for i in (0, 1) for x in VALUES[:2]] +
       [('iadd', 0, 1), ('iadd', 1, 0), ('iadd', 0, 0), ('plus', 0, 1)])


def play(cx, history):
    p = Pair()
    for op in history:
        kind, i, x = op
        if kind == 'add':
            p.m[i].add(x)
            p.v[i].append(x)
        elif kind == 'sub':
            if x not in p.v[i]:
                return False
            p.m[i].subtract(x)
            p.v[i].remove(x)
        elif kind == 'iadd':
            before = p.m[i]
            p.m[i] += p.m[x]
            p.v[i] = p.v[i] + p.v[x]
            if p.m[i] is not before:
                cx.fail('%r: += made another object' % (history,))
        else:
            total = p.m[0] + p.m[1]
            if total is p.m[0] or total is p.m[1]:
                cx.fail('%r: + returned an operand' % (history,))
            p.m[0], p.v[0], old, oldv = total, p.v[0] + p.v[1], p.m[0], p.v[0]
            state(cx, '%r, the operand of +' % (history,), old, oldv)
    for i in (0, 1):
        state(cx, '%r, mean %d' % (history, i), p.m[i], p.v[i])
    return True


@check.family('histories of running means', lambda t: [()] + list(itertools.product(OPS, repeat=2)), lambda t: 'every history of up to %d of 14 operations' % (5 if t == 'quick' else 6))
def histories(unit, cx):
    if not unit:
        for op in [()] + [(o,) for o in OPS]:
            cx.at(op)
            play(cx, op)
        return
    cx.at(unit)
    if not play(cx, unit):
        return
    for k in range(1, 4 if cx.tier == 'quick' else 5):
        for rest in itertools.product(OPS, repeat=k):
            cx.at(unit + rest)
            play(cx, unit + rest)
    if len(cx.outcomes) < 2000:
        cx.outcomes[unit] = 1


@check.family('other operands', lambda t: [0], 'only running means can be added')
def operands(unit, cx):
    for x in (45, 1.5, None, 'a', [1]):
        m = OnlineMean()
        m.add(2)
        for f in (lambda: m.__iadd__(x), lambda: m + x):
            cx.at(x)
            try:
                f()
            except TypeError:
                cx.checked += 1
            else:
                cx.fail('a running mean plus %r was accepted' % (x,))
        state(cx, 'after a refused %r' % (x,), m, [2])
    for values in ([1] * 1000, [2 ** k for k in range(40)], [(-1) ** k * k for k in range(999)]):
        m = OnlineMean()
        for k, x in enumerate(values):
            m.add(x)
            cx.at(k)
            state(cx, 'first %d values' % (k + 1), m, values[:k + 1])
        for k, x in enumerate(values):
            m.subtract(x)
            cx.at(k)
            state(cx, 'without the first %d values' % (k + 1), m, values[k + 1:])


def squeezed(s, roman):
    out = []
    for c, g in itertools.groupby(s):
        out.append(c * (len(list(g)) if roman and c in 'IXCMixcm' else 1))
    return ''.join(out)


@check.family('squeeze', lambda t: list('abIxX \n'), lambda t: 'every string of up to %d of 7 characters' % (7 if t == 'quick' else 8))
def squeezes(unit, cx):
    for w in words('abIxX \n', 0, 6 if cx.tier == 'quick' else 7):
        s = unit + w
        cx.at(s, 3)
        a = squeeze(s)
        cx.same(a, squeezed(s, False), 'squeeze(%r)' % s)
        b = squeeze(s, keep_roman_numerals=True)
        cx.same(b, squeezed(s, True), 'squeeze(%r, keep_roman_numerals=True)' % s)
        cx.same(squeeze(a), a, 'squeeze of the squeezed %r' % a)
        if len(cx.outcomes) < 2000:
            cx.outcomes[(a, b)] = 1


@check.family('every character squeezed', lambda t: list(range(0, 0x11000 if t == 'quick' else 0x110000, 0x1000)), 'every character doubled, tripled, split by another (quick: planes 0 and 16 pages of plane 1)')
def characters(unit, cx):
    for c in range(unit, unit + 0x1000):
        ch = chr(c)
        for s in (ch * 2, ch * 3 + 'a', 'a' + ch + 'b' + ch * 2):
            cx.at(s, 2)
            cx.same(squeeze(s), squeezed(s, False), 'squeeze(%r)' % s)
            cx.same(squeeze(s, True), squeezed(s, True), 'squeeze(%r, True)' % s)
    cx.at('')
    cx.same(squeeze(''), '', "squeeze('')")


@check.family('long runs', lambda t: [10, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000, 70000], 'strings of up to 70000 characters: one run, runs of 2 and 3, no run, roman numerals')
def long_runs(unit, cx):
    n = unit
    for s in ('a' * n, 'ab' * (n // 2), 'aabbb' * (n // 5), 'a' * n + 'b', 'b' + 'a' * n, 'XXIICa' * (n // 6), 'M' * n + 'a' * n, 'abc' * (n // 3) + 'cc', ''.join(chr(0x4e00 + i % 9000) for i in range(n))):
        cx.at((n, s[:30]), 2)
        cx.same(squeeze(s), squeezed(s, False), 'squeeze of %d characters' % n)
        cx.same(squeeze(s, True), squeezed(s, True), 'squeeze of %d characters, roman numerals kept' % n)


@check.family('magnitudes', lambda t: list(range(-60, 61, 3)),
              'every multiset of 3 of 8 values between 2**-20 and 2**20 times a scale of 2**-60 to 2**60 added, each subset of them subtracted, in every order')
def magnitudes(unit, cx):
    vs = [2.0 ** unit * x for x in (1, -1, 3, 0.5, 2.0 ** 20, 2.0 ** -20, -5 * 2.0 ** -19, 7.25)]
    for added in itertools.combinations_with_replacement(vs, 3):
        for k in range(0, 4):
            for gone in set(itertools.permutations(added, k)):
                m, left = OnlineMean(), list(added)
                for x in added:
                    m.add(x)
                for x in gone:
                    m.subtract(x)
                    left.remove(x)
                cx.at((added, gone))
                cx.same(len(m), len(left), 'number of values')
                if left:
                    want = float(sum(map(Fraction, left)) / len(left))
                    cx.expect(abs(m.peek() - want) <= 1e-12 * abs(want) and abs(float(m) - want) <= 1e-12 * abs(want),
                              lambda: 'the mean of %r, once %r was added and %r subtracted, is %r, expected %r' % (left, added, gone, m.peek(), want))
