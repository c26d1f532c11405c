import itertools
import string

from unidecode import unidecode

from vp.core import Check
from fog.phonetics import cologne, rusalka

check = Check(
    'C30', 'exhaustive enumeration of names on the real phonetic codes against a reference model of their rules',
    'Every name of up to 4 letters (thorough 5 for cologne), every name of up to 6 (thorough 7) of the letters that interact in the rules, every '
    'Unicode character (quick: plane 0) in 3 contexts, names in other cases and with other symbols.',
    ['cologne: a character whose transliteration holds ph or p next to h, and p and h separated by a symbol, are left out'])

CODE = {}
for letters, digit in (('AEIJOUY', '0'), ('BP', '1'), ('FVW', '3'), ('GKQ', '4'), ('L', '5'), ('MN', '6'), ('R', '7'), ('SZ', '8'), ('H', '')):
    for c in letters:
        CODE[c] = digit


def only(s, alphabet):
    return ''.join(c for c in s if c in alphabet)


def cologne_ref(name):
    w = only(unidecode(name.upper()).upper(), string.ascii_uppercase)
    out = ''
    for i, c in enumerate(w):
        prev = w[i - 1] if i else ''
        nxt = w[i + 1] if i + 1 < len(w) else ''
        if c == 'P' and nxt == 'H':
            d = '3'
        elif c in 'DT':
            d = '8' if nxt and nxt in 'CSZ' else '2'
        elif c == 'X':
            d = '8' if prev and prev in 'CKQ' else '48'
        elif c == 'C':
            if not i:
                hard = nxt and nxt in 'AHKLOQRUX'
            else:
                hard = nxt and nxt in 'AHKOQUX' and prev not in 'SZ'
            d = '4' if hard else '8'
        else:
            d = CODE[c]
        out += d
    out = ''.join(k for k, _ in itertools.groupby(out))
    return out[:1] + out[1:].replace('0', '')


def scan(w, rule):
    """Rewrite w from left to right: rule(w, i) gives (consumed, replacement) or None."""
    out, i = [], 0
    while i < len(w):
        r = rule(w, i)
        if r is None:
            out.append(w[i])
            i += 1
        else:
            out.append(r[1])
            i += r[0]
    return ''.join(out)


def heads(*alternatives):
    def rule(w, i):
        for a, b in alternatives:
            if w.startswith(a, i):
                return len(a), b
    return rule


def rusalka_ref(name):
    w = name.lower()
    for a, b in (('č', 'ch'), ('š', 'ch'), ('ŝ', 'ch'), ('û', 'iou'), ('ž', 'zh')):
        w = w.replace(a, b)
    w = only(unidecode(w).lower(), string.ascii_lowercase)
    if len(w) < 2:
        return w
    w = scan(w, heads(('cz', 'ts')))
    if w.endswith(('ij', 'iy')):
        w = w[:-2]
    w = scan(w, heads(('ph', 'f'), ('v', 'f'), ('w', 'f')))
    for e in ('je', 'ye', 'e'):
        if w.startswith(e):
            w = 'J' + w[len(e):]
            break
    w = scan(w, heads(*([(d + c + 'h', 'ʃ') for d in ('d', 't', '') for c in 'cs'] + [('tz', 'ʃ')])))
    w = scan(w, heads(*[(d + c, 'ʒ') for d in ('d', 't', '') for c in ('zh', 'j')]))
    w = scan(w, heads(('ks', 'x')))
    w = scan(w, lambda w, i: (1, 'j') if i == 0 and w[0] == 'y' and w[1:2] and w[1] in 'aeiou' else (3, 'j') if w.startswith('iou', i) else None)
    w = w.replace('c', 'k').replace('g', 'k').replace('h', '')
    w = ''.join(k for k, _ in itertools.groupby(w)).lower()
    if not w:
        return ''
    return ('a' if w[0] in 'aeiouy' else w[0]) + ''.join(c for c in w[1:] if c not in 'aeiouy')


def go_c(cx, s):
    cx.at(('cologne', s))
    got = cologne(s)
    cx.same(got, cologne_ref(s), 'cologne(%r)' % s)
    if len(cx.outcomes) < 2000:
        cx.outcomes[got] = 1


def go_r(cx, s):
    cx.at(('rusalka', s))
    got = rusalka(s)
    cx.same(got, rusalka_ref(s), 'rusalka(%r)' % s)
    if len(cx.outcomes) < 2000:
        cx.outcomes[got] = 1


AZ = string.ascii_lowercase


@check.family('every name', lambda t: list(itertools.product(AZ, repeat=2)) + [()], lambda t: 'every name of up to %s letters' % ('4' if t == 'quick' else '5 for cologne, 4 for rusalka'))
def names(unit, cx):
    if not unit:
        for s in [''] + list(AZ):
            go_c(cx, s)
            go_r(cx, s)
        return
    for k in range(0, 3):
        for r in itertools.product(AZ, repeat=k):
            s = ''.join(unit + r)
            go_c(cx, s)
            go_r(cx, s)
    if cx.tier != 'quick':
        for r in itertools.product(AZ, repeat=3):
            go_c(cx, ''.join(unit + r))


@check.family('interacting letters', lambda t: [('c', a, b) for a in 'acdshxlzp' for b in 'acdshxlzp'] + [('r', a, b) for a in 'aejydtczshk' for b in 'aejydtczshk'],
              lambda t: 'every name of %d letters out of the 9 of cologne and the 11 of rusalka that interact, and shorter' % (6 if t == 'quick' else 7))
def interacting(unit, cx):
    which, a, b = unit
    alpha, f = ('acdshxlzp', go_c) if which == 'c' else ('aejydtczshk', go_r)
    for k in range(3, 5 if cx.tier == 'quick' else 6):
        if k == 4 and which == 'r' and cx.tier == 'quick':
            for r in itertools.product('ejtzhs', repeat=4):
                f(cx, a + b + ''.join(r))
            continue
        for r in itertools.product(alpha, repeat=k):
            f(cx, a + b + ''.join(r))


@check.family('sequences of the rules', lambda t: [(a, b) for a in ('i', 'ou', 'iou', 'y', 'ij', 'iy', 'ks', 'x', 'ph', 'v', 'w', 'cz', 'ts', 'tz', 'tch', 'sh', 'dzh', 'dj', 'j', 'zh', 'e', 'ye', 'je', 'h', 'kh', 'g', 'c', 'k', 'n')
                                                for b in (0, 1)],
              'every sequence of up to 4 of the 29 patterns of rusalka (quick: the first and last of all, the middle ones of 12)')
def patterns(unit, cx):
    P = ['i', 'ou', 'iou', 'y', 'ij', 'iy', 'ks', 'x', 'ph', 'v', 'w', 'cz', 'ts', 'tz', 'tch', 'sh', 'dzh', 'dj', 'j', 'zh', 'e', 'ye', 'je', 'h', 'kh', 'g', 'c', 'k', 'n']
    mid = P if cx.tier != 'quick' else ['ou', 'y', 'iy', 'ph', 'cz', 'sh', 'j', 'zh', 'h', 'g', 'k', 'n']
    a, r = unit
    for k in range(0, 3):
        for m in itertools.product(mid, repeat=k):
            for z in P[r::2]:
                go_r(cx, a + ''.join(m) + z)


@check.family('case and symbols', lambda t: list(AZ), 'names of 3 letters in 3 cases, with 4 symbols anywhere')
def dressing(unit, cx):
    for a in AZ:
        for b in 'aehkxsp':
            w = unit + a + b
            for v in (w.upper(), w.title(), w[0] + w[1:].upper()):
                go_c(cx, v)
                go_r(cx, v)
            for sym in "-' 1":
                for i in range(4):
                    v = w[:i] + sym + w[i:]
                    go_r(cx, v)
                    if 'p' not in w or 'h' not in w:
                        go_c(cx, v)


@check.family('unicode', lambda t: list(range(0, 0x10000 if t == 'quick' else 0x20000, 0x400)), 'every character of plane 0 (thorough: 0 and 1), alone and in two names')
def unicode_(unit, cx):
    for c in range(unit, unit + 0x400):
        if 0xd800 <= c < 0xe000:
            continue
        for f in ('%s', 'ma%sr', '%sna'):
            s = f % chr(c)
            go_r(cx, s)
            u = unidecode(s.upper()).upper()
            if 'PH' not in only(u, string.ascii_uppercase):
                go_c(cx, s)


@check.family('long names', lambda t: [20, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000] + ([5000, 70000] if t != 'quick' else []), 'names of up to 1000 (thorough 70000) letters: repeated letters, alphabets, repeated patterns, the patterns at their end')
def long_names(unit, cx):
    L = unit
    ends = ('', 'ph', 'ch', 'sc', 'x', 'cx', 'dz', 'ij', 'iy', 'iou', 'tch', 'dj', 'ks', 'cz', 'tz', 'e', 'h', 'm')
    for core in ('a' * L, 'l' * L, 'lm' * (L // 2), AZ * (L // 26 + 1), AZ[::-1] * (L // 26 + 1), 'tch' * (L // 3), 'ioux' * (L // 4), 'phcz' * (L // 4), 'h' * L):
        for e in ends if L <= 300 else ends[:6]:
            for s in (core + e, e + core, e + core + e):
                if not (s.count('p') and 'p-h' in s):
                    go_c(cx, s)
                go_r(cx, s)
