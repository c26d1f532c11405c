import itertools

from vp.core import Check, words
from checks.lev_common import lev, osa_lte1
from fog.key import (levenshtein_1d_keys, damerau_levenshtein_1d_keys, levenshtein_1d_blocks, damerau_levenshtein_1d_blocks,
                     levenshtein_2d_blocks, damerau_levenshtein_2d_blocks)

check = Check(
    'C20', 'exhaustive enumeration of pairs of strings on the real key functions against the edit distances',
    'Every pair of strings over 3 letters up to length 5 (thorough 6) and over 2 letters up to length 8 (thorough 10), and every '
    'string within the distance of strings of up to 21 letters, with default and custom flags.',
    ['strings do not contain the flag characters', 'transpositions are of adjacent characters not edited otherwise'])


def osa(a, b):
    n, m = len(a), len(b)
    p2, p1 = None, list(range(m + 1))
    for i in range(1, n + 1):
        row = [i]
        ca = a[i - 1]
        for j in range(1, m + 1):
            cb = b[j - 1]
            v = min(p1[j] + 1, row[j - 1] + 1, p1[j - 1] + (ca != cb))
            if i > 1 and j > 1 and ca == b[j - 2] and a[i - 2] == cb:
                v = min(v, p2[j - 2] + 1)
            row.append(v)
        p2, p1 = p1, row
    return p1[m]


# name: (function, distance, threshold, distance bound implied by a shared key, most keys for a string of n characters)
FUNCS = {
    'levenshtein_1d_keys': (levenshtein_1d_keys, lev, 1, 1, lambda n: 2 * n + 3),
    'damerau_levenshtein_1d_keys': (damerau_levenshtein_1d_keys, osa, 1, 2, lambda n: 3 * n + 3),
    'levenshtein_1d_blocks': (levenshtein_1d_blocks, lev, 1, None, lambda n: 4),
    'damerau_levenshtein_1d_blocks': (damerau_levenshtein_1d_blocks, osa, 1, None, lambda n: 4),
    'levenshtein_2d_blocks': (levenshtein_2d_blocks, lev, 2, None, lambda n: 12),
    'damerau_levenshtein_2d_blocks': (damerau_levenshtein_2d_blocks, osa, 2, None, lambda n: 12),
}


def between_doubles(a, b):
    """b is a with a character inserted between two equal ones it differs from (or the converse)."""
    if len(a) > len(b):
        a, b = b, a
    if len(b) != len(a) + 1:
        return False
    return any(a[i - 1] == a[i] != b[i] and a[:i] + b[i] + a[i:] == b for i in range(1, len(a)))


def verdict(cx, name, a, b, ka, kb, d):
    f, dist, k, bound, most = FUNCS[name]
    share = not ka.isdisjoint(kb)
    cx.checked += 1
    if d <= k and not share:
        key = None
        if name.endswith('1d_keys') and between_doubles(a, b):
            key = name + ':insertion-between-equal-letters'
        cx.fail('%s: %r and %r are at distance %d but share no key' % (name, a, b, d), key=key)
    if share and bound is not None and d > bound:
        cx.fail('%s: %r and %r share a key but are at distance %d' % (name, a, b, d))


def keys(cx, name, w):
    cx.at((name, w))
    ks = list(FUNCS[name][0](w))
    cx.expect(len(ks) <= FUNCS[name][4](len(w)), lambda: '%s(%r): %d keys' % (name, w, len(ks)))
    cx.expect(all(isinstance(x, str) for x in ks), 'keys are strings')
    return frozenset(ks)


def universe(t, u):
    return list(words('abc', 0, 5 if t == 'quick' else 6)) if u == 0 else list(words('ab', 0, 8 if t == 'quick' else 10))


@check.family('all pairs', lambda t: [(n, u, i) for n in FUNCS for u in (0, 1) for i in range(16)],
              'every pair of strings over {a,b,c} up to length 5 (thorough 6), over {a,b} up to length 8 (thorough 10)')
def pairs(unit, cx):
    name, u, r = unit
    dist, bound = FUNCS[name][1], FUNCS[name][3]
    k = FUNCS[name][2]
    ws = universe(cx.tier, u)
    K = {w: keys(cx, name, w) for w in ws}
    for i, a in enumerate(ws):
        if i % 16 != r:
            continue
        for b in ws[i:]:
            if len(b) - len(a) > k + 1:
                break
            ka, kb = K[a], K[b]
            if bound is None and not ka.isdisjoint(kb):
                cx.checked += 1
                continue   # sharing is enough for blocks
            cx.current = (name, a, b)
            verdict(cx, name, a, b, ka, kb, dist(a, b))


def one_edit(w, alphabet, tr):
    out = set()
    for i in range(len(w) + 1):
        for c in alphabet:
            out.add(w[:i] + c + w[i:])
            if i < len(w):
                out.add(w[:i] + c + w[i + 1:])
        if i < len(w):
            out.add(w[:i] + w[i + 1:])
        if tr and i + 1 < len(w):
            out.add(w[:i] + w[i + 1] + w[i] + w[i + 2:])
    out.discard(w)
    return out


LONG = range(0, 22)


@check.family('neighbourhoods of longer strings', lambda t: [(n, L) for n in FUNCS for L in LONG],
              'strings of 0 to 21 letters, all different, all equal, of period 2, 3 and 4: every string at distance 1, and at distance 2 '
              'for the 2d blocks (an eighth of them in quick)')
def longer(unit, cx):
    name, L = unit
    f, dist, k, bound, most = FUNCS[name]
    tr = 'damerau' in name
    for base in ('abcdefghijklmnopqrstuvwxyz'[:L], ('ab' * 20)[:L], ('aab' * 20)[:L], 'a' * L, ('abca' * 10)[:L]):
        kb = keys(cx, name, base)
        one = sorted(one_edit(base, 'zab', tr))
        for y in one:
            verdict(cx, name, base, y, kb, keys(cx, name, y), 1)
        if k == 2:
            step = 8 if cx.tier == 'quick' else 1
            two = set()
            for x in one:
                two |= one_edit(x, 'za', tr)
            for y in sorted(two - {base})[::step]:
                cx.at((name, base, y))
                if kb.isdisjoint(f(y)) and dist(base, y) <= 2:
                    cx.fail('%s: %r and %r are at distance <= 2 but share no key' % (name, base, y))
                cx.checked += 1


@check.family('flags', lambda t: list(FUNCS), 'custom flag characters: the same keys up to renaming of the flags, strings over {a,b} up to length 6')
def flags(unit, cx):
    f = FUNCS[unit][0]
    two = '2d' in unit
    kw = dict(flag1='1', flag2='2', flag3='3') if two else dict(flag='!')
    tr = str.maketrans({'\x00': '1', '\x01': '2', '\x02': '3'} if two else {'\x00': '!'})
    for w in words('ab', 0, 6):
        cx.at((unit, w, 'flags'), 2)
        cx.same(sorted(f(w, **kw)), sorted(x.translate(tr) for x in f(w)), '%s(%r) with custom flags' % (unit, w))
        if not unit.startswith('damerau'):
            g = FUNCS['damerau_' + unit][0]
            cx.at((unit, w, 'transpositions'), 2)
            cx.same(sorted(f(w, transpositions=True)), sorted(g(w)), '%s(%r, transpositions=True)' % (unit, w))


@check.family('exotic characters', lambda t: list(FUNCS), 'every pair of strings over {e acute, emoji, space} up to length 4')
def exotic(unit, cx):
    f, dist, k, bound, most = FUNCS[unit]
    ws = list(words('\u00e9\U0001f600 ', 0, 4 if cx.tier != 'quick' else 3))
    K = {w: keys(cx, unit, w) for w in ws}
    for a, b in itertools.combinations_with_replacement(ws, 2):
        cx.current = (unit, a, b)
        verdict(cx, unit, a, b, K[a], K[b], dist(a, b))


@check.family('one edit at every place of long strings', lambda t: [(n, L) for n in FUNCS for L in (30, 31, 32, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258) + ((510, 511, 512, 513, 1000) if t != 'quick' else ())],
              'strings of 30 to 258 (thorough 1000) letters of 4 shapes: every insertion, deletion, replacement and swap; for the 2d blocks with a second '
              'edit at every place of 24')
def verylong(unit, cx):
    name, L = unit
    f, dist, k, bound, most = FUNCS[name]
    tr = 'damerau' in name
    for base in (''.join(chr(0x100 + i) for i in range(L)), ('ab' * L)[:L], 'a' * L, ''.join('abcd'[(i * i + i // 5) % 4] for i in range(L))):
        kb = keys(cx, name, base)
        for i in range(L + 1):
            near = [base[:i] + 'z' + base[i:]]
            if i < L:
                near += [base[:i] + base[i + 1:], base[:i] + 'z' + base[i + 1:]]
            if tr and i + 1 < L:
                near.append(base[:i] + base[i + 1] + base[i] + base[i + 2:])
            for y in near:
                if y == base:
                    continue
                verdict(cx, name, base, y, kb, keys(cx, name, y), 1)
                if k == 2 and (i % 7 == 0 or L < 70 or abs(i * 3 - L) < 9 or abs(i * 3 - 2 * L) < 9):
                    for j in sorted({(len(y) * q // 24) for q in range(25)} | {len(y) // 3 + 1, len(y) * 2 // 3 + 1}):
                        for z in (y[:j] + 'y' + y[j:], y[:j] + y[j + 1:], y[:j] + 'y' + y[j + 1:]):
                            cx.at((name, base, z))
                            cx.expect(not kb.isdisjoint(f(z)), lambda: '%s: %r and %r are at distance <= 2 but share no key' % (name, base, z))
        far = base[:L // 4] + 'zyxzyx' + base[L // 4 + 6:]
        if bound is not None:
            verdict(cx, name, base, far, kb, keys(cx, name, far), 3)


@check.family('flags within strings', lambda t: [(n, i) for n in FUNCS for i in range(4)],
              'every pair of strings over a letter and 2 flag characters up to length 5 (thorough 6): close strings share a key all the same')
def flagged(unit, cx):
    name, r = unit
    f, dist, k = FUNCS[name][:3]
    ws = list(words('a\x00\x01', 0, 5 if cx.tier == 'quick' else 6))
    K = {w: keys(cx, name, w) for w in ws}
    for i, a in enumerate(ws):
        if i % 4 != r:
            continue
        for b in ws[i:]:
            if len(b) - len(a) > k:
                break
            cx.checked += 1
            if K[a].isdisjoint(K[b]) and dist(a, b) <= k:
                cx.current = (name, a, b)
                verdict(cx, name, a, b, K[a], K[b], dist(a, b))
