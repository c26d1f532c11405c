import itertools

from vp.core import Check
from checks.words_ref import reference, hashtag_parts
from checks.c25 import ATOMS, CONTEXTS
from fog.tokenizers.words import WordTokenizer, split_hashtag

check = Check(
    'C26', 'exhaustive enumeration of short texts on the real tokenizer against a reference model of its lexical rules',
    'Every text of up to 4 (thorough 5) atoms out of 23 covering each lexical class, up to 3 (thorough 4) of 52 entities, '
    'every text of up to 3 ASCII characters, every Unicode character (quick: plane 0) in 9 contexts, window limits.',
    ['whether a lone digit is a number or punctuation is left open (the tests require the latter after a comma)'])

tokenizer = WordTokenizer()
splitter = WordTokenizer(split_hashtags=True)


def norm(tokens):
    return [('digit', v) if len(v) == 1 and v.isdigit() else (k, v) for k, v in tokens]


def go(cx, s, split=False):
    cx.at((s, split))
    got = norm((splitter if split else tokenizer)(s))
    want = norm(reference(s, split))
    cx.checked += 1
    if got != want:
        cx.fail('tokens of %r%s: got %r, expected %r' % (s, ' with split hashtags' if split else '', got, want))
    if len(cx.outcomes) < 2000:
        cx.outcomes[tuple(k for k, _ in got)] = 1


@check.family('lexical classes', lambda t: [()] + [(a,) for a in ATOMS] + [(a, b) for a in ATOMS for b in ATOMS],
              lambda t: 'every text of up to %d of 23 atoms' % (4 if t == 'quick' else 5))
def classes(unit, cx):
    if len(unit) < 2:
        go(cx, ''.join(unit))
        return
    for k in range(0, 3 if cx.tier == 'quick' else 4):
        for rest in itertools.product(ATOMS, repeat=k):
            s = ''.join(unit + rest)
            go(cx, s)
            if '#' in s or '$' in s:
                go(cx, s, True)


ENTITIES = ['http://', 'https://a.b', 'http', 'x@y.z', 'Mr', 'etc', 'no', 'O.N.U', 'U.S.', 'EELV.', 'É.', "'tis", 'twas', 'hui', "n't", 't',
            "O'", 'd', "'ll", "'re", "'s", 'l’', 'h', 'va-t-on', '-t-', '-je', '-elle', 'chef-d', '7th', '3.88', '2,4', '-23', '5.', '10_000',
            '#FooBar', '#TDF2018', '$cash', '@john_d', ':-)', ':)', '<3', '-->', '<--', ':3', '^^', '8', 'p', '⭐️', '🇫🇷', '👨‍👨‍👧‍👧', ' ', '.']


@check.family('entities', lambda t: [(a, b) for a in ENTITIES for b in ENTITIES],
              lambda t: 'every text of up to %d of 52 entities and pieces of entities' % (3 if t == 'quick' else 4))
def entities(unit, cx):
    if unit[0] == unit[1]:
        go(cx, unit[0])
        go(cx, unit[0], True)
    for k in range(0, 2 if cx.tier == 'quick' else 3):
        for rest in itertools.product(ENTITIES, repeat=k):
            s = ''.join(unit + rest)
            go(cx, s)
            if '#' in s or '$' in s:
                go(cx, s, True)


ASCII = [chr(c) for c in range(32, 127)]


@check.family('ascii', lambda t: ASCII, 'every text of up to 3 printable ASCII characters')
def ascii_(unit, cx):
    go(cx, unit)
    for b in ASCII:
        go(cx, unit + b)
        for c in ASCII:
            go(cx, unit + b + c)


@check.family('unicode', lambda t: list(range(0, 0x10000 if t == 'quick' else 0x110000, 0x400)),
              lambda t: 'every character of %s, in %d contexts' % ('plane 0' if t == 'quick' else 'the 17 planes', len(CONTEXTS)))
def unicode_(unit, cx):
    for c in range(unit, unit + 0x400):
        if 0xd800 <= c < 0xe000:
            continue
        for f in CONTEXTS:
            go(cx, f % chr(c))


@check.family('letters around apostrophes', lambda t: list(range(0xc0, 0x180)) + [ord(c) for c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ019_'],
              'every pair of Latin letters around both apostrophes, and before each contraction')
def apostrophes(unit, cx):
    a = chr(unit)
    for b in itertools.chain(map(chr, range(0xc0, 0x180)), 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ019_#@$'):
        for q in "'’":
            go(cx, a + q + b)
            go(cx, 'x' + a + q + b + 'x')
    for c in ('ll', 're', 'm', 's', 've', 'd', 't', 'hui', 'LL', 'S', 'tis', 'twas', 'TIS'):
        for q in "'’":
            for f in ('%s%s%s', '%s%s%s.', '-%s%s%s', '%s-b%s%s', '%s%s%sx', '@%s%s%s', '#%s%s%s', 'n%s%s%s ok'):
                go(cx, f % (a, q, c))
                go(cx, f % (a, q, c), True)


@check.family('abbreviations and unions', lambda t: [0],
              'every abbreviation and union target, in every case, followed by a point and by other characters')
def lists(unit, cx):
    from checks.words_ref import ABBREVIATIONS, UNIONS
    for w in sorted(ABBREVIATIONS) + ['mn', 'jrs', 'pps', 'x']:
        for v in (w, w.upper(), w.title()):
            for f in ('%s.', '%s. ', '%s. a', '%s.a', '%s..', "%s.'", 'a %s. b', '-%s. b', "l'%s. b", '@%s. b', '#%s. b', '%s.1', 'a-%s. b'):
                go(cx, f % v)
    for w in sorted(UNIONS) + ['t', 'ja', 'ont', 'yy', '', 'en', 'ce', 'me', 'te', 'se', 'leur', 'leurs', 'ci', 'là', 'eux', 'soi', 'l', 'm', 'un', 'une', 'des', 'qui', 'que', 'ça',
                             'j', 'i', 'e', 'iel', 'elles-', 'nou', 'vou', 'je-', 'lex', 'ells', 'moi-', 'he', 'she', 'it', 'we', 'they', 'you']:
        for v in (w, w.upper(), w.title()):
            for f in ('a-%s', 'a-%s ', 'a-%s.', 'a-t-%s', 'a-t-%s!', 'a-T-%s', 'a-b-%s', '-%s', 'a--%s', 't-%s', "a-%s'b", "l'a-%s", '1-%s', 'a_b-%s',
                      'a-t-b-%s', 't-t-%s', 'É-t-%s', 'A.B-%s', '@a-%s', '#a-%s', 'http://a-%s', 'x@y-%s', '-t-%s', 'a-t-%s-', 'at-%s', 'a-at-%s'):
                go(cx, f % v)


@check.family('windows', lambda t: list(range(55, 72)), 'emails, arrows and smileys around the 64 characters of lookahead')
def windows(unit, cx):
    n = unit
    for a in ('a', 'Z9', '-', '1', "'", '.'):
        for s in ('%s@b.c', '%s@', '%sx@b,c', '%s>', '<%s', '%s', "%s's", '#%s', '@%s', '%s.', 'http://%s,', 'é%s@b'):
            go(cx, s % (a * n))
            go(cx, s % (a * n) + ' z')
            go(cx, 'w ' + s % (a * n))
            go(cx, s % ((a * n)[:n]))


@check.family('numbers', lambda t: ['0', '1', '-', '-1', '.', '٣', '１'], lambda t: 'every text of up to %d of 9 characters starting a number' % (6 if t == 'quick' else 7))
def numbers(unit, cx):
    for k in range(0, 6 if cx.tier == 'quick' else 7):
        for rest in itertools.product("12.,-a '_", repeat=k):
            go(cx, unit + ''.join(rest))


@check.family('hashtags', lambda t: list('abAB12éÉ中'), lambda t: 'every hashtag of up to %d of 7 characters, split' % (7 if t == 'quick' else 8))
def hashtags(unit, cx):
    for k in range(0, 6 if cx.tier == 'quick' else 7):
        for rest in itertools.product('abAB1é中', repeat=k):
            h = '#' + unit + ''.join(rest)
            cx.at(h)
            cx.same(list(split_hashtag(h)), hashtag_parts(h), 'split_hashtag(%r)' % h)
            if k < 4:
                go(cx, h, True)
                go(cx, h)


@check.family('addresses', lambda t: [''.join(x) for x in itertools.product('hH', 'tT', 'tT', 'pP')],
              'http, https and their look-alikes in every case, with every break of the scheme, at the start of a text and after each kind of character')
def addresses(unit, cx):
    for scheme in (unit, unit + 's', unit + 'S', unit[:3], unit + 'x', 'x' + unit, unit[::-1], 'ftp', 'www', 'file'):
        for sep in ('://', ':/', ':', '//', ':///', '', '.', '; //', ':\\\\'):
            for host in ('', 'a', 'a.b', 'A.B/C?d=e&f#g', 'a b', "a'b", 'a,b', 'a)', '<a>', 'é.fr', '127.0.0.1:80', 'a.b.', 'a_b-c'):
                for f in ('%s', 'see %s now', '(%s)', '.%s', 'a%s', '"%s"', "l'%s", '1%s', '#%s', '@%s', '-%s', 'a@b.c%s'):
                    go(cx, f % (scheme + sep + host))
