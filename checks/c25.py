import itertools

from vp.core import Check
from checks.words_ref import blank, ABBREVIATIONS, UNIONS
from fog.tokenizers.words import WordTokenizer

check = Check(
    'C25', 'exhaustive enumeration of short texts on the real tokenizer: every character must be accounted for',
    'Every text of up to 4 (thorough 5) atoms out of 23 covering each lexical class, every text of up to 3 out of all ASCII '
    'characters, every Unicode character (quick: planes 0 and 1) in 9 contexts, every pair of short texts around a blank.',
    ['options that rewrite the text or drop tokens are off'])

ATOMS = ['a', 'A', 'n', 't', 'é', '1', '.', ',', '-', '_', "'", '@', '#', '$', ':', ')', ' ', '\x01', '·', '😀', '\ufe0f', 'je', 's']
tokenizer = WordTokenizer()
splitter = WordTokenizer(split_hashtags=True)


def account(cx, s, tokens, sigils=''):
    """Walk through the text: each token must be found right where the previous one ended, up to blanks, and to the hyphens
    at which unions are cut."""
    p = 0
    prev = None
    for kind, t in tokens:
        if not t:
            cx.fail('%r: empty token among %r' % (s, tokens))
        while p < len(s) and blank(s[p]) and not s.startswith(t, p):
            p += 1
        if not s.startswith(t, p):
            if s[p:p + 1] == '-' and s.startswith(t, p + 1) and kind == prev == 'word' and s[p - 1:p] and not blank(s[p - 1]):
                p += 1
            elif sigils and s[p:p + 1] in ('#', '$') and s.startswith(t, p + 1) and kind in ('word', 'number'):
                p += 1
            else:
                cx.fail('%r: token %r does not come next at position %d, tokens %r' % (s, t, p, tokens))
        p += len(t)
        prev = kind
    while p < len(s) and blank(s[p]):
        p += 1
    if p != len(s):
        cx.fail('%r: %r is in no token, tokens %r' % (s, s[p:], tokens))
    cx.checked += 1


def hyphens(cx, s, tokens):
    """A hyphen may only vanish between the words of x-t-y or x-je."""
    lost = s.count('-') - sum(t.count('-') for _, t in tokens)
    unions = 0
    for i, (kind, t) in enumerate(tokens):
        if i and kind == 'word' and tokens[i - 1][0] == 'word':
            a = tokens[i - 1][1]
            if '%s-%s' % (a, t) in s and (t in UNIONS or t == 't' or a == 't'):
                unions += 1
    if lost > unions:
        cx.fail('%r: %d hyphens are in no token, tokens %r' % (s, lost, tokens))


def go(cx, s, both=True):
    cx.at(s, 2 if both else 1)
    tokens = list(tokenizer(s))
    account(cx, s, tokens)
    if '-' in s:
        hyphens(cx, s, tokens)
    for _, t in tokens:
        for c in t:
            if c.isspace():
                cx.fail('%r: the token %r holds a blank' % (s, t))
    if both:
        account(cx, s, list(splitter(s)), '#$')
    if len(cx.outcomes) < 2000:
        cx.outcomes[tuple(k for k, _ in tokens)] = 1


@check.family('lexical classes', lambda t: [()] + [(a,) for a in ATOMS] + [(a, b) for a in ATOMS for b in ATOMS],
              lambda t: 'every text of up to %d of 23 atoms' % (4 if t == 'quick' else 5))
def classes(unit, cx):
    if len(unit) < 2:
        go(cx, ''.join(unit))
        return
    for k in range(0, 3 if cx.tier == 'quick' else 4):
        for rest in itertools.product(ATOMS, repeat=k):
            go(cx, ''.join(unit + rest), both=k < 3)


ASCII = [chr(c) for c in range(1, 127)]


@check.family('ascii', lambda t: ASCII, 'every text of up to 2 ASCII characters, and of 3 whose middle one is printable (quick: middle one of 24)')
def ascii_(unit, cx):
    go(cx, unit)
    middle = ".,-_'@#$:;)=8<>^a A1\u00b7/n\x01t" if cx.tier == 'quick' else ASCII
    for b in ASCII:
        go(cx, unit + b, False)
        for c in middle:
            go(cx, unit + c + b, False)


CONTEXTS = ['%s', 'a%sb', '1%s2', '#%s', '@%s', "'%s", 'A.%s', 'a-%s', '😀%s.']


@check.family('unicode', lambda t: list(range(0, 0x20000 if t == 'quick' else 0x110000, 0x400)),
              lambda t: 'every character of %s planes, in %d contexts' % ('the first two' if t == 'quick' else 'the 17', len(CONTEXTS)))
def unicode_(unit, cx):
    for c in range(unit, unit + 0x400):
        if 0xd800 <= c < 0xe000:
            continue
        for f in CONTEXTS:
            go(cx, f % chr(c), False)


LOCAL = [a for a in ATOMS if a != ' '] + ['Mr', '1st', 'http://a', 'a@b', ':-)', '->', '🇫🇷']


@check.family('blanks separate', lambda t: list(itertools.product(LOCAL, repeat=2)) + [(a,) for a in LOCAL],
              'every pair of a text of up to 2 (thorough 3) atoms and one of up to 2, around each of 5 blanks')
def local(unit, cx):
    left = ''.join(unit)
    lefts = [left] if cx.tier == 'quick' else [left] + [left + x for x in LOCAL]
    rights = [''] + LOCAL + [a + b for a in LOCAL for b in LOCAL]
    for a in lefts:
        cx.at(a)
        ta = list(tokenizer(a))
        if ta and ta[-1] == ('punct', '.') and len(ta) > 1 and ta[-2][1].lower() in ABBREVIATIONS:
            continue
        for k, b in enumerate(rights):
            blanks = ' ' if k % 7 or cx.tier != 'quick' else ' \t\n\u00a0\u2003'
            cx.at((a, b), 2)
            tb = list(tokenizer(b))
            for x in blanks:
                cx.same(list(tokenizer(a + x + b)), ta + tb, 'tokens of %r, %r, %r' % (a, x, b))


@check.family('long texts', lambda t: [1, 2, 3, 62, 63, 64, 65, 66, 127, 128, 129, 1000, 20000],
              'repetitions of each atom and of pairs of atoms up to 20000 times')
def long_(unit, cx):
    for a in ATOMS + ['Mr. ', "l'", 'va-t-', 'A.', '1,', '-1', '-', '<-', 'http://a', 'a@']:
        go(cx, a * unit)
        go(cx, 'x' + a * unit + 'y')
        if unit < 200:
            for b in ATOMS:
                go(cx, (a + b) * unit)
                go(cx, a * unit + b)


@check.family('hashtags', lambda t: list('aAé1'), lambda t: 'every hashtag of up to %d of 6 characters, whole and split' % (7 if t == 'quick' else 8))
def hashtags(unit, cx):
    for k in range(0, 6 if cx.tier == 'quick' else 7):
        for rest in itertools.product('aA1É中_', repeat=k):
            go(cx, '#' + unit + ''.join(rest))


ENTITIES = ['http://', 'http://a.b', 'x@y.z', 'Mr.', 'etc', 'O.N.U', 'EELV.', "'tis", 'hui', "n't", "O'", "'ll", 'l\u2019', 'va-t-on', '-t-', '-je', 'chef-d', '7th', '3.88', '2,4', '-23', '5.', '10_000',
            '#FooBar', '#TDF2018', '$cash', '@john_d', ':-)', '<3', '-->', '^^', '\u2b50\ufe0f', '\U0001f1eb\U0001f1f7', ' ', '.', '?!', '\x00']


@check.family('entities', lambda t: [(a, b) for a in ENTITIES for b in ENTITIES],
              lambda t: 'every text of up to %d of 37 entities and pieces of entities' % (3 if t == 'quick' else 4))
def entities(unit, cx):
    for k in range(0, 2 if cx.tier == 'quick' else 3):
        for rest in itertools.product(ENTITIES, repeat=k):
            go(cx, ''.join(unit + rest))
