import itertools
import math
import string

from unidecode import unidecode

from vp.core import Check, words
from fog.key import ngram_keys, omission_key, skeleton_key, zig_zag
from fog.tokenizers import ngrams, bigrams, trigrams, quadrigrams
from fog.tokenizers.ngrams import join_ngrams

check = Check(
    'C29', 'exhaustive enumeration of strings on the real n-gram and letter keys against their definitions',
    'Every sequence of up to 7 (thorough 8) of 3 letters as string, list and tuple, sizes 1 to 10; every pair of strings over 3 letters up to length 5 '
    'for the collisions of n-gram keys; every string of up to 4 (thorough 5) of 14 characters and every Unicode character for the letter keys.',
    ['sizes are at least 1, thresholds in [0, 1]'])


def grams(n, s):
    return [s[i:i + n] for i in range(max(1, len(s) - n + 1))]


@check.family('n-grams', lambda t: list(itertools.product('abc', repeat=2)) + [()],
              lambda t: 'every sequence of up to %d of 3 letters, as string, tuple and list, n from 1 to 10' % (7 if t == 'quick' else 8))
def ngrams_(unit, cx):
    seqs = [unit + r for k in range(0, 6 if cx.tier == 'quick' else 7) for r in itertools.product('abc', repeat=k)] if unit else [(), ('a',), ('b',)]
    for w in seqs:
        for seq in (''.join(w), w, list(w)):
            for n in range(1, 11):
                cx.at((n, seq))
                cx.same(list(ngrams(n, seq)), grams(n, seq), 'ngrams(%d, %r)' % (n, seq))
            for f, n in ((bigrams, 2), (trigrams, 3), (quadrigrams, 4)):
                cx.at((n, seq))
                cx.same(list(f(seq)), grams(n, seq), '%d-grams of %r' % (n, seq))
        s = ''.join(w)
        for n in range(1, 11):
            cx.at(('join', n, s))
            cx.same(join_ngrams(ngrams(n, s)), s, 'join_ngrams(ngrams(%d, %r))' % (n, s))
        if len(cx.outcomes) < 2000:
            cx.outcomes[s] = 1


def selections(n, s, threshold):
    """Joined selections, in order, of enough of the grams of s."""
    g = grams(n, s)
    k = len(g)
    least = max(1, math.floor(k * threshold))
    return {''.join(c) for size in range(least, k + 1) for c in itertools.combinations(g, size)}, least


THRESHOLDS = [0.0, 0.25, 0.5, 0.7, 0.75, 0.8, 0.9, 1.0]


@check.family('n-gram keys', lambda t: list(itertools.product('abc', repeat=2)) + [()], 'every string over 3 letters up to length 7, n from 1 to 4, 8 thresholds; strings of distinct letters up to length 12')
def keys(unit, cx):
    seqs = [''.join(unit + r) for k in range(0, 6) for r in itertools.product('abc', repeat=k)] if unit else (
        ['', 'a', 'b', 'é中'] + ['abcdefghijkl'[:k] for k in range(3, 13)])
    for s in seqs:
        for n in (1, 2, 3, 4):
            for t in THRESHOLDS:
                if len(s) > 9 and t < 0.7:
                    continue
                cx.at((n, s, t))
                got = list(ngram_keys(n, s, t) if t != 0.8 else ngram_keys(n, s))
                want, _ = selections(n, s, t)
                cx.same(set(got), want, 'ngram_keys(%d, %r, threshold=%s)' % (n, s, t))
                cx.same(got[0], ''.join(grams(n, s)), 'first key of ngram_keys(%d, %r)' % (n, s))


def lcs(a, b):
    row = [0] * (len(b) + 1)
    for x in a:
        prev = 0
        for j, y in enumerate(b):
            cur = row[j + 1]
            row[j + 1] = prev + 1 if x == y else max(row[j + 1], row[j])
            prev = cur
    return row[-1]


@check.family('collisions', lambda t: [(n, th, i) for n in (1, 2, 3) for th in (0.5, 0.7, 0.8) for i in range(8)],
              'every pair of strings over {a,b,c} up to length 5: those that share enough grams in order share a key')
def collisions(unit, cx):
    n, th, r = unit
    ws = [w for w in words('abc', 1, 5)]
    ks = {}
    for w in ws:
        cx.at((n, w, th))
        ks[w] = (set(ngram_keys(n, w, threshold=th)), grams(n, w))
    for i, a in enumerate(ws):
        if i % 8 != r:
            continue
        ka, ga = ks[a]
        la = max(1, math.floor(len(ga) * th))
        for b in ws[:i]:
            kb, gb = ks[b]
            if lcs(ga, gb) >= max(la, math.floor(len(gb) * th)):
                cx.expect(not ka.isdisjoint(kb), lambda: 'ngram_keys(%d, threshold=%s): %r and %r share no key' % (n, th, a, b))


ORDER = 'JKQXZVWYBFMGPDHCLNTSR'


def letters(s):
    return [c for c in unidecode(s).upper() if c in string.ascii_uppercase]


def uniq(xs):
    return list(dict.fromkeys(xs))


def skeleton(s):
    w = letters(s)
    if not w:
        return ''
    rest = uniq(c for c in w[1:] if c != w[0])
    return w[0] + ''.join(c for c in rest if c not in 'AEIOU') + ''.join(c for c in rest if c in 'AEIOU')


def omission(s):
    w = letters(s)
    return ''.join(c for c in ORDER if c in w) + ''.join(uniq(c for c in w if c in 'AEIOU'))


def letter_keys(cx, s):
    cx.at(s, 2)
    cx.same(skeleton_key(s), skeleton(s), 'skeleton_key(%r)' % s)
    got = omission_key(s)
    cx.same(got, omission(s), 'omission_key(%r)' % s)
    if len(cx.outcomes) < 2000:
        cx.outcomes[got] = 1


CHARS = 'aAeéiybBcrst-1'


@check.family('skeleton and omission', lambda t: list(itertools.product(CHARS, repeat=2)) + [()],
              lambda t: 'every string of up to %d of 14 characters' % (5 if t == 'quick' else 6))
def keys2(unit, cx):
    if not unit:
        for s in [''] + list(CHARS) + [string.ascii_letters, string.ascii_letters[::-1], 'y' * 30, ORDER.lower(), ORDER[::-1]]:
            letter_keys(cx, s)
        return
    for k in range(0, 4 if cx.tier == 'quick' else 5):
        for r in itertools.product(CHARS, repeat=k):
            letter_keys(cx, ''.join(unit + r))


@check.family('every letter', lambda t: list(string.ascii_uppercase), 'every triple of letters; every letter in every place of a word of 6')
def letter(unit, cx):
    for a in string.ascii_lowercase:
        for b in string.ascii_lowercase:
            letter_keys(cx, unit + a + b)
            letter_keys(cx, unit + a + b + unit + a)
        for i in range(6):
            w = list('rosace')
            w[i] = unit + a
            letter_keys(cx, ''.join(w))


@check.family('unicode', lambda t: list(range(0, 0x10000 if t == 'quick' else 0x20000, 0x400)), 'every character of plane 0 (thorough: 0 and 1), alone and in a word')
def unicode_(unit, cx):
    for c in range(unit, unit + 0x400):
        if not 0xd800 <= c < 0xe000:
            letter_keys(cx, chr(c))
            letter_keys(cx, 'ba%sc' % chr(c))


@check.family('zig zag', lambda t: [0], 'the two keys of the zig zag order, every string over 3 letters up to length 4')
def zigzag(unit, cx):
    cx.at('zig_zag')
    cx.same(len(zig_zag), 2, 'number of keys')
    cx.same(zig_zag[0], None, 'first key')
    for w in words('abc', 0, 4):
        cx.same(zig_zag[1](w), ''.join(reversed(w)), 'second key of %r' % w)


@check.family('long strings', lambda t: [20, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 5000, 70000], 'n-grams of strings, lists and tuples, letter keys of strings of up to 70000 letters; n-gram keys of strings of up to 300 letters at threshold 1')
def long_strings(unit, cx):
    L = unit
    for s in ('a' * L, ''.join('abc'[(i * i + i // 5) % 3] for i in range(L)), ''.join(chr(0x4e00 + i % 5000) for i in range(L))):
        for n in sorted({1, 2, 3, 4, 10, L - 1, L, L + 1} if L <= 300 else {1, 2, 5, 10}):
            for seq in (s, tuple(s), list(s)):
                cx.at((n, seq))
                cx.same(list(ngrams(n, seq)), grams(n, seq), '%d-grams of %r' % (n, s[:40]))
            cx.at(('join', n, L))
            cx.same(join_ngrams(ngrams(n, s)), s, 'join_ngrams(ngrams(%d, %r))' % (n, s[:40]))
        if L <= 300:
            for n in (1, 2, 3, 4):
                cx.at((n, s, 1.0))
                cx.same(list(ngram_keys(n, s, 1.0)), [''.join(grams(n, s))], 'ngram_keys(%d, %r, 1)' % (n, s))
                if L <= 20:
                    cx.at((n, s, 0.9))
                    cx.same(set(ngram_keys(n, s, 0.9)), selections(n, s, 0.9)[0], 'ngram_keys(%d, %r, 0.9)' % (n, s))
    abc = string.ascii_lowercase
    for s in (abc * (L // 26 + 1), abc[::-1] * (L // 26 + 1), 'b' * L + 'a' + 'rst', 'e' * L + abc, 'é' * L + 'Z', '-' * L + 'qu', 'x' + '1' * L + 'ay'):
        for w in (s, s[::-1], s.upper()):
            letter_keys(cx, w)
