import html
import itertools

from unidecode import unidecode

from vp.core import Check
from fog.tokenizers import words_tokenizer
from fog.tokenizers.words import WordTokenizer

check = Check(
    'C27', 'exhaustive enumeration of configurations of the real tokenizer against a filter over its default tokens',
    'Every combination of the 9 switches, 5 length limits, 3 stoplists and 22 selections of kinds on 26 texts; every selection of kinds; every '
    'text of up to 3 (thorough 4) of 22 pieces under each option; every history of interleaved uses of one tokenizer.',
    ['stoplists name no mention or hashtag with capitals', 'the kinds kept or dropped are those before mentions and hashtags are turned into words'])

KINDS = ['word', 'number', 'punct', 'emoji', 'smiley', 'url', 'email', 'hashtag', 'mention']
SWITCHES = ['lower', 'unidecode', 'reduce_words', 'decode_html_entities', 'normalize_mentions', 'normalize_hashtags', 'mentions_as_words',
            'hashtags_as_words', 'split_hashtags']
TEXTS = ['', ' ', 'A mouse eats THE cheese.', '#ÉpopéeRusse2018 @Yomgui_D $Cash', "l'été #a @B 12 3.5", 'Coooooool 1111111 ......',
         '&eacute;t&amp;t &#34;A&#34; &lt;3', "@John's #FooBar's 90's", 'http://a.B/cccccc, x@Y.z :-) 🙏 ⭐️', 'Mr. O.N.U. va-t-on dis-LUI', 'ÀÉÎ éà @é #é #Éa',
         'aa aaa aaaa aaaaa AAAAA', '&amp;eacute; &nbsp;x', '#THE #the the THE @the', '@a_ #a1B2 #ABc', 'ßẞ İi ŒŒ', 'naïve—x “y”', '12 1 1a -5 -',
         '#中文 中文中文', 'eeeee', '#eeeeeA @eeeee', "n't can't CAN'T", '\x01a\x02b', 'a b c d e f', '😀a😀', 'The the tHe 12']
SELECTIONS = [(None, None)] + [((k,), None) for k in KINDS] + [(None, (k,)) for k in KINDS] + [((), None), (None, ()), (('word', 'hashtag'), None)]


def lengthening(s):
    out = []
    for c, g in itertools.groupby(s):
        n = len(list(g))
        word = c.isalnum() and not c.isdecimal() or c == '_'
        out.append(c * (3 if n >= 5 and word else n))
    return ''.join(out)


def default_tokens(cx, s, split):
    return list((SPLIT if split else DEFAULT)(s))


DEFAULT, SPLIT = WordTokenizer(), WordTokenizer(split_hashtags=True)


def expected(base, o):
    stop = o.get('stoplist')
    if stop is not None:
        stop = {w.lower() for w in stop} if o.get('lower') else set(stop)
    keep, drop, lo, hi = o.get('keep'), o.get('drop'), o.get('min_word_length'), o.get('max_word_length')
    out = []
    for kind, v in base:
        if keep is not None and kind not in keep or drop is not None and kind in drop:
            continue
        if kind == 'mention':
            if o.get('normalize_mentions'):
                v = v.lower()
            if o.get('mentions_as_words'):
                kind, v = 'word', v[1:]
        elif kind == 'hashtag':
            if o.get('normalize_hashtags'):
                v = unidecode(v.lower())
            if o.get('hashtags_as_words'):
                kind, v = 'word', v[1:]
        if kind == 'word':
            if o.get('lower'):
                v = v.lower()
            if lo is not None and len(v) < lo or hi is not None and len(v) > hi:
                continue
        if stop is not None and v in stop:
            continue
        out.append((kind, v))
    return out


def prepared(s, o):
    if o.get('decode_html_entities'):
        s = html.unescape(s)
    if o.get('unidecode'):
        s = unidecode(s)
    if o.get('reduce_words'):
        s = lengthening(s)
    return s


def go(cx, tokenizer, s, o, base=None):
    cx.at((s, o))
    got = list(tokenizer(s))
    if base is None:
        base = default_tokens(cx, prepared(s, o), o.get('split_hashtags'))
    want = expected(base, o)
    cx.checked += 1
    if got != want:
        cx.fail('tokens of %r with %s: got %r, expected %r' % (s, o, got, want))
    if len(cx.outcomes) < 2000:
        cx.outcomes[tuple(got)] = 1


LENGTHS = [(None, None), (2, None), (None, 3), (2, 4), (0, 1)]
STOPS = [None, ['the', 'THE', 'a', '12', '🙏', '.', 'é'], []]


@check.family('all configurations', lambda t: list(itertools.product((False, True), repeat=9)),
              'every combination of the 9 switches x 5 length limits x 3 stoplists x 22 selections, on 26 texts (quick: 1 text in 4)')
def configs(unit, cx):
    sw = {k: v for k, v in zip(SWITCHES, unit) if v}
    bases = [default_tokens(cx, prepared(s, sw), sw.get('split_hashtags')) for s in TEXTS]
    i = 0
    for (lo, hi), stop, (keep, drop) in itertools.product(LENGTHS, STOPS, SELECTIONS):
        o = dict(sw)
        if lo is not None:
            o['min_word_length'] = lo
        if hi is not None:
            o['max_word_length'] = hi
        if stop is not None:
            o['stoplist'] = list(stop)
        if keep is not None:
            o['keep'] = list(keep)
        if drop is not None:
            o['drop'] = list(drop)
        t = WordTokenizer(**o)
        i += 1
        plain = keep is None and drop is None
        for k, s in enumerate(TEXTS):
            if cx.tier == 'quick' and (k + i) % 4 and not plain:
                continue
            go(cx, t, s, o, bases[k])


@check.family('every selection', lambda t: list(range(512)), 'every set of kinds, kept or dropped, given as a list, tuple, set or generator, on 26 texts')
def selections(unit, cx):
    kinds = [k for i, k in enumerate(KINDS) if unit >> i & 1]
    for name in ('keep', 'drop'):
        for make in (list, tuple, set, iter):
            if make is iter and not kinds:
                continue
            o = {name: kinds}
            t = WordTokenizer(**{name: make(kinds)})
            for s in TEXTS if make is list or cx.tier != 'quick' else TEXTS[3:9]:
                go(cx, t, s, o)
            o = {name: kinds, 'mentions_as_words': True, 'hashtags_as_words': True, 'min_word_length': 3}
            t = WordTokenizer(**dict(o, **{name: make(kinds)}))
            for s in TEXTS[3:9]:
                go(cx, t, s, o)


PIECES = ['a', 'B', 'é', 'the', 'The', '1', '.', ' ', '#', '@', "'s", '-', 'eeeee', '&amp;', '&lt;', ';', 'É', 'aB', '12', '😀', ':)', '_']
SINGLE = ([{k: True} for k in SWITCHES] + [{k: [x]} for k in ('keep', 'drop') for x in KINDS] +
          [{'min_word_length': n} for n in (0, 1, 2, 3)] + [{'max_word_length': n} for n in (0, 1, 2, 3)] +
          [{'min_word_length': 1, 'max_word_length': 2}, {'stoplist': ['the', 'a', '1', '.', '😀', ':)']}, {'stoplist': ('The',), 'lower': True},
           {'lower': True, 'stoplist': {'THE', 'É'}, 'unidecode': True}, {'normalize_hashtags': True, 'hashtags_as_words': True, 'max_word_length': 3},
           {'normalize_mentions': True, 'mentions_as_words': True, 'min_word_length': 2}, {'split_hashtags': True, 'lower': True, 'drop': ['number']}])


@check.family('every text', lambda t: list(range(len(SINGLE))), lambda t: 'every text of up to %d of 22 pieces under each option' % (3 if t == 'quick' else 4))
def texts(unit, cx):
    o = SINGLE[unit]
    t = WordTokenizer(**o)
    for k in range(0, 4 if cx.tier == 'quick' else 5):
        for s in itertools.product(PIECES, repeat=k):
            go(cx, t, ''.join(s), o)


@check.family('rejections', lambda t: [0], 'contradictory and unknown selections, inverted lengths')
def rejections(unit, cx):
    def refused(**o):
        cx.at(o)
        try:
            WordTokenizer(**o)
        except TypeError:
            cx.checked += 1
            return
        cx.fail('WordTokenizer(%s) was accepted' % o)
    for a in [[k] for k in KINDS] + [[], KINDS]:
        for b in [[k] for k in KINDS] + [[], KINDS]:
            refused(keep=a, drop=b)
    for bad in ('Word', 'words', '', 'token', 'puncts', 'hashtags'):
        refused(keep=[bad])
        refused(drop=[bad])
        refused(keep=['word', bad])
        refused(drop=KINDS + [bad])
    for lo in range(0, 5):
        for hi in range(0, 5):
            if lo >= hi:
                refused(min_word_length=lo, max_word_length=hi)
            else:
                go(cx, WordTokenizer(min_word_length=lo, max_word_length=hi), 'a bb ccc dddd eeeee 1 22222 .', {'min_word_length': lo, 'max_word_length': hi})


@check.family('interleaved uses', lambda t: list(range(len(SINGLE))),
              'two token streams of one tokenizer consumed in every order of 6 steps, another text tokenized meanwhile')
def interleaved(unit, cx):
    o = SINGLE[unit]
    t = WordTokenizer(**o)
    A, B = "The #aB's eeeee @Cd 12.", '&lt;a é The :) 😀 1 #bC'
    cx.at(('alone', o), 2)
    wa, wb = list(t(A)), list(t.tokenize(B))
    cx.same(list(WordTokenizer(**o).tokenize(A)), wa, 'another tokenizer, %s' % o)
    for order in itertools.product((0, 1), repeat=6):
        cx.at((o, order), 3)
        its = (t(A), t(B))
        got = ([], [])
        for x in order:
            v = next(its[x], None)
            if v is not None:
                got[x].append(v)
        list(t(A + B))
        for x in (0, 1):
            got[x].extend(its[x])
        cx.same(got[0], wa, 'interleaved stream of %r' % A)
        cx.same(got[1], wb, 'interleaved stream of %r' % B)
    stop = ['the', 'a']
    cx.at('stoplist kept')
    t = WordTokenizer(stoplist=stop, lower=True)
    list(t(A))
    cx.same(stop, ['the', 'a'], 'the stoplist given')
    for s in TEXTS:
        cx.at(s, 2)
        cx.same(list(words_tokenizer(s)), list(WordTokenizer()(s)), 'words_tokenizer(%r)' % s)


EVERY = [{'reduce_words': True}, {'lower': True}, {'lower': True, 'min_word_length': 2}, {'lower': True, 'max_word_length': 2}, {'min_word_length': 3}, {'max_word_length': 3},
         {'unidecode': True}, {'normalize_mentions': True}, {'normalize_hashtags': True, 'hashtags_as_words': True}, {'lower': True, 'reduce_words': True}]


@check.family('every character', lambda t: list(range(0, 0x3000 if t == 'quick' else 0x20000, 0x100)),
              'every character up to U+3000 (thorough: of planes 0 and 1), once, twice, six times, in words, mentions and hashtags, under 10 sets of options')
def characters(unit, cx):
    ts = [WordTokenizer(**o) for o in EVERY]
    for c in map(chr, range(unit, unit + 0x100)):
        if '\ud800' <= c <= '\udfff':
            continue
        for s in (c, c * 2, c * 6, 'x%s' % c, 'ab%s A%sB' % (c * 5, c), '@a%s #a%s' % (c, c), '%s a' % (c * 4)):
            for t, o in zip(ts, EVERY):
                go(cx, t, s, o)
