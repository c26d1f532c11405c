import itertools
import string

from unidecode import unidecode

from vp.core import Check
from fog.key import FingerprintingKeyer, NgramsFingerprintKeyer, fingerprint, ngrams_fingerprint
from fog.tokenizers import FingerprintTokenizer, NgramsFingerprintTokenizer, fingerprint_tokenizer, ngrams_fingerprint_tokenizer

check = Check(
    'C28', 'exhaustive enumeration of texts and options on the real fingerprints against their normal form',
    'Every text of up to 5 (thorough 6) of 12 characters, every Unicode character (quick: plane 0) in 3 contexts, every combination of the options '
    'on every text of up to 4 (thorough 5) of 9 pieces, every ASCII symbol as split character, every order and repetition of 4 tokens.',
    ['minimum sizes and stopwords apply to texts of letters, digits and blanks', 'min_token_size n > 1 drops the tokens of n characters or less (as the tests require)'])

LETTERS = set(string.ascii_lowercase + string.digits)


def clean(s):
    t = unidecode(s.lower()).lower()
    return ''.join(c if c in LETTERS else ' ' if c.isspace() else '' for c in t)


def normal(s):
    return sorted(set(clean(s).split())) or ['']


def grams(n, s):
    s = ''.join(clean(s).split())
    return sorted({s[i:i + n] for i in range(max(1, len(s) - n + 1))})


def go(cx, s, sizes=(2,)):
    cx.at(s, 3 + 2 * len(sizes))
    want = normal(s)
    cx.same(list(fingerprint_tokenizer(s)), want, 'fingerprint_tokenizer(%r)' % s)
    key = fingerprint(s)
    cx.same(key, ' '.join(want), 'fingerprint(%r)' % s)
    cx.same(fingerprint(key), key, 'the fingerprint of the fingerprint %r' % key)
    for n in sizes:
        g = grams(n, s)
        cx.same(list(ngrams_fingerprint_tokenizer(n, s)), g, 'ngrams_fingerprint_tokenizer(%d, %r)' % (n, s))
        cx.same(ngrams_fingerprint(n, s), ''.join(g), 'ngrams_fingerprint(%d, %r)' % (n, s))
    if len(cx.outcomes) < 2000:
        cx.outcomes[key] = 1


CHARS = ['a', 'b', 'B', 'é', '1', ' ', '\t', '-', '.', "'", '中', '\u00a0']


@check.family('every text', lambda t: list(itertools.product(CHARS, repeat=2)) + [(c,) for c in CHARS] + [()],
              lambda t: 'every text of up to %d of 12 characters' % (5 if t == 'quick' else 6))
def texts(unit, cx):
    if len(unit) < 2:
        go(cx, ''.join(unit), (1, 2, 3))
        return
    for k in range(0, 4 if cx.tier == 'quick' else 5):
        for r in itertools.product(CHARS, repeat=k):
            go(cx, ''.join(unit + r), (1, 2, 3) if k < 3 else (2,) if k == 3 else ())


@check.family('unicode', lambda t: list(range(0, 0x10000 if t == 'quick' else 0x20000, 0x400)), 'every character of plane 0 (thorough: 0 and 1), alone, in a word and between words')
def unicode_(unit, cx):
    for c in range(unit, unit + 0x400):
        if 0xd800 <= c < 0xe000 or c == 0x85:
            continue
        for f in ('%s', 'x%sy', 'x %s a'):
            go(cx, f % chr(c), (2,))


@check.family('order, repetition and dressing', lambda t: list(itertools.permutations(['paris', '12', 'electricite', 'of'])),
              'every order of 4 tokens, repeated or not, in 5 cases and spellings, with 8 separators and 6 decorations')
def invariance(unit, cx):
    want = '12 electricite of paris'
    wn = {n: ngrams_fingerprint(n, ''.join(unit)) for n in (1, 2, 3)}
    seps = [' ', '  ', '\t', '\n', ' - ', ' , ', '\u2003', ' & ']
    dress = ['%s', ' %s ', '"%s"', '(%s).', '\x00%s', '« %s ! »']
    spell = [str, str.upper, str.title, lambda w: w.replace('e', 'é'), lambda w: '.'.join(w)]
    for sep in seps:
        for d in dress:
            for f in spell:
                for rep in (0, 1, 2):
                    toks = [f(w) for w in unit]
                    s = d % sep.join(toks + toks[:rep])
                    cx.at(s, 2)
                    cx.same(fingerprint(s), want, 'fingerprint(%r)' % s)
                    if not rep:
                        for n in wn:
                            cx.same(ngrams_fingerprint(n, s), wn[n], 'ngrams_fingerprint(%d, %r)' % (n, s))


def optioned(s, keep_digits, size, split, stop, squeeze):
    for c in split or ():
        s = s.replace(c, ' ')
    out = []
    for w in s.split():
        w = w.lower()
        if stop and w in stop:
            continue
        if not keep_digits:
            w = ''.join(c for c in w if not c.isdigit())
        if size > 1 and len(w) <= size:
            continue
        w = clean(w)
        if squeeze:
            w = ''.join(k for k, _ in itertools.groupby(w))
        if w:
            out.append(w)
    return out


OPTIONS = list(itertools.product((True, False), (1, 2, 3), (None, [','], ['|', '-']), (None, ['ab'], ['A', 'bb']), (False, True)))
PIECES = ['a', 'b', 'B', '1', ' ', ',', '-', 'ab', '\n']


@check.family('options', lambda t: OPTIONS, lambda t: 'every combination of 108 options, every text of up to %d of 9 pieces (no other symbol when sizes or stopwords are set)' % (4 if t == 'quick' else 5))
def options(unit, cx):
    keep, size, split, stop, squeeze = unit
    kw = {}
    if not keep:
        kw['keep_digits'] = False
    if size > 1:
        kw['min_token_size'] = size
    if split:
        kw['split'] = split
    if stop:
        kw['stopwords'] = stop
    if squeeze:
        kw['squeeze'] = True
    low = {w.lower() for w in stop or ()}
    make = [FingerprintTokenizer(**kw), FingerprintingKeyer(**kw), NgramsFingerprintTokenizer(**kw), NgramsFingerprintKeyer(**kw)]
    symbols = set(',-') - set(split or ())
    for k in range(0, 5 if cx.tier == 'quick' else 6):
        for w in itertools.product(PIECES, repeat=k):
            s = ''.join(w)
            if (size > 1 or stop) and not symbols.isdisjoint(s):
                continue
            cx.at((kw, s), 4)
            toks = optioned(s, keep, size, split, low, squeeze)
            want = sorted(set(toks)) or ['']
            cx.same(list(make[0](s)), want, 'FingerprintTokenizer(%s)(%r)' % (kw, s))
            cx.same(make[1](s), ' '.join(want), 'FingerprintingKeyer(%s)(%r)' % (kw, s))
            if k < 4:
                j = ''.join(toks)
                for n in (1, 2, 3):
                    g = sorted({j[i:i + n] for i in range(max(1, len(j) - n + 1))})
                    cx.same(list(make[2](n, s)), g, 'NgramsFingerprintTokenizer(%s)(%d, %r)' % (kw, n, s))
                    cx.same(make[3](n, s), ''.join(g), 'NgramsFingerprintKeyer(%s)(%d, %r)' % (kw, n, s))


@check.family('every split character and stopword', lambda t: [c for c in string.punctuation],
              'every ASCII symbol, alone and with each other one, as split characters; stopwords that look like patterns')
def split(unit, cx):
    c = unit
    for o in string.punctuation + ' ':
        cs = [c] if o == ' ' else [c, o]
        t = FingerprintTokenizer(split=cs)
        for s in ('b%sa' % c, 'b%sa%sc' % (c, o), '%s' % c, '%sb%s' % (o, c), 'b%s%sa' % (c, c), 'x!y?z]w^v\\u-t'):
            cx.at((cs, s))
            u = s
            for x in cs:
                u = u.replace(x, ' ')
            cx.same(list(t(s)), normal(u), 'FingerprintTokenizer(split=%r)(%r)' % (cs, s))
    for stop, s, want in ((['a%sb' % c], 'a%sb c' % c, ['c']), (['a%sb' % c], 'axb c', ['axb', 'c']), (['a%sb' % c], 'ab c', ['ab', 'c']),
                          (['a%sb' % c], 'C A%sB' % c, ['c'])):
        if c == '_' and s == 'ab c':
            continue
        cx.at((stop, s))
        cx.same(list(FingerprintTokenizer(stopwords=stop)(s)), want, 'FingerprintTokenizer(stopwords=%r)(%r)' % (stop, s))
    for stop in (['de'], ('de', 'del'), {'del', 'de'}, ['DE'], ['d', 'de'], ['de la']):
        t = FingerprintTokenizer(stopwords=stop)
        for s in ('de x', 'x de', 'de', 'x de y', 'DE x', 'del x', 'xde dex', 'de la x', 'de de x', 'x d', ''):
            cx.at((stop, s))
            w = ' %s ' % s.lower()
            if 'de la' in stop:
                toks = w.replace(' de la ', ' ').split()
            else:
                toks = [x for x in w.split() if x not in {y.lower() for y in stop}]
            cx.same(list(t(s)), sorted(set(toks)) or [''], 'FingerprintTokenizer(stopwords=%r)(%r)' % (stop, s))


@check.family('long texts', lambda t: [20, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 5000, 70000], 'one word, many words, repeated words, spaces and marks, n-grams of 1 to 300 of texts of up to 70000 letters')
def long_texts(unit, cx):
    n = unit
    words = ['w%d' % (i * 7919 % n) for i in range(n)]
    for s in ('a' * n, 'Ab' * (n // 2) + 'é', ' '.join(words)[:5 * n], ' '.join(words[::-1]), 'b a ' * (n // 4), ' ' * n + 'x', 'x' + '\t' * n, '-' * n + 'y', 'É' * n,
              ' '.join('abcdefgh'[i % 8] * (i % 70 + 1) for i in range(min(n, 2000))), '\u4e2d' * min(n, 1000)):
        go(cx, s, (1, 2, 3, 7, 300))


@check.family('stopwords and digits of every script', lambda t: list(range(0, 0x3000 if t == 'quick' else 0x20000, 0x100)),
              'every letter up to U+3000 (thorough: of planes 0 and 1) as a stopword, spelled either way, and in tokens dropped or not for their size; every decimal digit dropped when digits are not kept')
def scripts(unit, cx):
    bare = FingerprintTokenizer(keep_digits=False)
    sized = FingerprintTokenizer(min_token_size=2)
    for c in map(chr, range(unit, unit + 0x100)):
        if c.isdecimal():
            for s in ('x%s y' % c, '%s' % c, 'a %s b' % c, '%s%sz' % (c, c)):
                cx.at(s, 2)
                want = normal(s.replace(c, ''))
                cx.same(list(bare(s)), want, 'FingerprintTokenizer(keep_digits=False)(%r)' % s)
        if c.isalpha() and len(c.lower()) == 1 and c.lower().isalpha():
            low = c.lower()
            for w in (c, c + 'a', 'b' + c, c + c, c * 3, 'a%sb' % c, 'ab' + c):
                s = 'xxx %s yyy' % w
                cx.at(('min_token_size', s))
                cx.same(list(sized(s)), normal(s if len(w) > 2 else 'xxx yyy'), 'FingerprintTokenizer(min_token_size=2)(%r)' % s)
            for stop in {c, low, c + 'a', low + 'a', 'b' + c}:
                t = FingerprintTokenizer(stopwords=[stop])
                w = stop.lower()
                for s, want in (('xx %s yy' % w, ['xx', 'yy']), ('xx %s' % stop, ['xx']), ('%s yy' % stop, ['yy']), ('xx%s yy%s' % (w, w), normal('xx%s yy%s' % (w, w)))):
                    cx.at((stop, s))
                    cx.same(list(t(s)), want, 'FingerprintTokenizer(stopwords=[%r])(%r)' % (stop, s))
