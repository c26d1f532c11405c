import itertools
import math
import zlib
from fractions import Fraction

from vp.core import Check, subsets
from fog.clustering import ppjoin, all_pairs, ppjoin_plus

check = Check(
    'C11', 'exhaustive enumeration of collections of token sets on the real joins against the brute-force join',
    'Every pair of subsets of 8 tokens, every triple of subsets of 4 tokens (every pair of shapes for larger sets), '
    'all metrics, thresholds, algorithms and token orderings.',
    ['thresholds are in (0, 1]; a similarity within 2e-6 under the threshold counts as reaching it',
     'with the crc32 ordering the tokens used have distinct checksums',
     'two records with no token at all are not claimed similar or dissimilar'])

ALGOS = {'ppjoin': ppjoin, 'all_pairs': all_pairs, 'ppjoin_plus': ppjoin_plus}
THRESHOLDS = [0.1, 0.25, 0.3, 1 / 3, 0.4, 0.5, 0.6, 2 / 3, 0.7, 0.75, 0.8, 6 / 7, 0.9, 1.0]


def crc(t):
    return zlib.crc32(t.encode())


def sim(metric, a, b):
    i = len(a & b)
    if metric == 'jaccard':
        return i / len(a | b)
    if metric == 'dice':
        return 2 * i / (len(a) + len(b))
    return i / math.sqrt(len(a) * len(b))


METRICS = ('jaccard', 'dice', 'binary_cosine')


class Rec(tuple):
    """A record with an identity of its own, which the tokenizer turns into tokens."""
    __slots__ = ()


def expected(sets, metric, th):
    out = []
    for i, j in itertools.combinations(range(len(sets)), 2):
        if not sets[i] or not sets[j]:
            continue
        s = sim(metric, sets[i], sets[j])
        assert not th - 2e-6 < s < th - 1e-9
        if s >= th - 1e-9:
            out.append((i, j))
    return sorted(out)


def go(cx, algo, recs, metric, th, ordering, how='tokenizer'):
    """recs: tuples of tokens (strings). Records are handed over as indices, tokenized by lookup; or as is."""
    cx.at((algo, recs, metric, th, ordering, how))
    sets = [frozenset(r) for r in recs]
    if how == 'tokenizer':
        pairs = list(ALGOS[algo](list(range(len(recs))), th, metric=metric, tokenizer=lambda i: list(recs[i]), token_ordering=ordering))
        got = [tuple(sorted(p)) for p in pairs]
    else:
        data = [list(r) for r in recs]
        ident = {id(d): i for i, d in enumerate(data)}
        pairs = list(ALGOS[algo]((d for d in data) if how == 'generator' else data, th, metric=metric, token_ordering=ordering))
        got = [tuple(sorted(ident[id(x)] for x in p)) for p in pairs]
        if data != [list(r) for r in recs]:
            cx.fail('%s mutated its records %r' % (algo, recs))
    got = sorted(p for p in got if sets[p[0]] or sets[p[1]])
    want = expected(sets, metric, th)
    cx.checked += 1
    if got != want:
        cx.fail('%s(%r, %r, metric=%s, token_ordering=%s) [%s] gave pairs %s, expected %s' % (
            algo, recs, th, metric, ordering, how, got, want))


@check.family('all pairs of token sets', lambda t: [(a, m, i) for a in ALGOS for m in METRICS for i in range(12)],
              'every unordered pair of subsets of 7 (thorough 8) tokens up to renaming of tokens they do not share, every '
              'threshold, alphabetical ordering')
def pairs(unit, cx):
    algo, metric, r = unit
    n = 7 if cx.tier == 'quick' else 8
    ss = list(subsets('abcdefghij'[:n], 1))
    for x in ss[r::12]:
        for y in ss:
            if len(x) < len(y) or (len(x) == len(y) and x <= y):
                for th in THRESHOLDS if cx.tier != 'quick' else THRESHOLDS[1::2]:
                    go(cx, algo, (x, y), metric, th, None)


@check.family('all triples of token sets', lambda t: [(a, m, i) for a in ALGOS for m in METRICS for i in range(12)],
              'every ordered triple of subsets of 4 tokens, the empty one included; all orderings of tokens, thresholds 1/3, 0.5, 0.8 (thorough: all)')
def triples(unit, cx):
    algo, metric, r = unit
    ss = list(subsets('abcd'))
    ths = (1 / 3, 0.5, 0.8) if cx.tier == 'quick' else THRESHOLDS
    for recs in list(itertools.product(ss, repeat=3))[r::12]:
        for th in ths:
            for o in (None, 'freq', 'crc32'):
                go(cx, algo, recs, metric, th, o)


@check.family('every way to hand over the records', lambda t: [(a, o) for a in ALGOS for o in (None, 'freq', 'crc32')],
              'every pair of sequences over {a,b,c} up to length 3 (repeated tokens, empty records), no tokenizer, list and generator, default options too')
def handover(unit, cx):
    algo, o = unit
    ss = [t for n in range(4) for t in itertools.product('abc', repeat=n)]
    for recs in itertools.product(ss, repeat=2):
        for how in ('tokenizer', 'list', 'generator'):
            go(cx, algo, recs, 'jaccard', 0.5, o, how)
        if o == 'freq':
            cx.at((algo, recs, 'defaults'))
            data = [list(x) for x in recs]
            got = list(ALGOS[algo](data, 0.5))
            want = expected([frozenset(x) for x in recs], 'jaccard', 0.5)
            if any(recs):
                cx.same(len(got), len(want), '%s(%r, 0.5)' % (algo, recs))


@check.family('repeated records', lambda t: list(ALGOS), 'every triple of strings over {a,b} up to length 3, equal ones being the very same object, list, tuple and generator; each pair of positions counts')
def repeated(unit, cx):
    algo = unit
    pool = [''.join(t) for n in range(4) for t in itertools.product('ab', repeat=n)]
    for recs in itertools.product(pool, repeat=3):
        for mk in (list, tuple, iter):
            for tok in (None, list):
                cx.at((algo, recs, mk.__name__))
                got = sorted(tuple(sorted(p)) for p in ALGOS[algo](mk(recs), 0.6, tokenizer=tok) if any(p))
                want = sorted(tuple(sorted((recs[i], recs[j]))) for i, j in expected([frozenset(r) for r in recs], 'jaccard', 0.6))
                cx.same(got, want, '%s(%r, 0.6)' % (algo, recs))


@check.family('exact thresholds', lambda t: [(a, m, i) for a in ALGOS for m in METRICS for i in range(8)],
              'every pair of records of up to 24 (thorough 40) tokens whose shared tokens are the last ones, the first ones or in the middle, at a threshold '
              'equal to their similarity: always found')
def exact(unit, cx):
    algo, metric, r = unit
    top = 24 if cx.tier == 'quick' else 40
    for k, (n1, n2) in enumerate((n1, n2) for n1 in range(1, top + 1) for n2 in range(1, n1 + 1)):
        if k % 8 != r:
            continue
        for o in range(1, n2 + 1):
            s = sim(metric, set(range(n1)), set(range(n1 - o, n1 - o + n2)))
            for where in ('last', 'first') if o > 1 else ('last',):
                sh = ['%c%03d' % ('z' if where == 'last' else 'a', i) for i in range(o)]
                go(cx, algo, (tuple(sh + ['m%03d' % i for i in range(n1 - o)]), tuple(sh + ['n%03d' % i for i in range(n2 - o)])), metric, s, None)


@check.family('string tokenizers', lambda t: list(ALGOS), 'every set of 3 strings out of 40, tokenized as characters and as sets and generators of bigrams')
def strings(unit, cx):
    algo = unit
    pool = [''.join(p) for n in (1, 2, 3) for p in itertools.product('abc', repeat=n)][:40]
    toks = {'chars': lambda s: s, 'set': lambda s: set(s), 'bigrams': lambda s: (s[i:i + 2] for i in range(max(1, len(s) - 1)))}
    for recs in list(itertools.combinations(pool, 3))[::1 if cx.tier != 'quick' else 3]:
        for name, tok in toks.items():
            sets = [frozenset(tok(r)) for r in recs]
            cx.at((algo, recs, name))
            got = sorted(tuple(sorted((recs.index(x), recs.index(y)))) for x, y in ALGOS[algo](iter(recs), 0.6, tokenizer=tok))
            cx.same(got, expected(sets, 'jaccard', 0.6), '%s(%r, 0.6, tokenizer=%s)' % (algo, recs, name))


def shapes(maxn):
    """Pairs of sets up to isomorphism under order: interleavings as words over only-x, only-y, both."""
    for n in range(1, maxn + 1):
        for w in itertools.product('xyb', repeat=n):
            yield ''.join(w)


@check.family('all interleavings of two larger sets', lambda t: [(a, m, i) for a in ALGOS for m in METRICS for i in range(24)],
              'every way to interleave (in token order) the own and the shared tokens of two records, up to 9 (thorough 11) '
              'distinct tokens, thresholds around their exact similarity')
def interleavings(unit, cx):
    algo, metric, r = unit
    from math import ceil
    for k, w in enumerate(shapes(9 if cx.tier == 'quick' else 11)):
        if k % 24 != r:
            continue
        x = tuple('%c' % (97 + i) for i, c in enumerate(w) if c in 'xb')
        y = tuple('%c' % (97 + i) for i, c in enumerate(w) if c in 'yb')
        if not x or not y:
            continue
        s = sim(metric, set(x), set(y))
        if s == 0:
            continue
        # exactly at the similarity: must be found; a bit above: must not
        for th in (s, min(1.0, s + 1e-3)):
            if th == s or th > s + 1e-4:
                go(cx, algo, (x, y), metric, th, None)


@check.family('large records', lambda t: [(a, m) for a in ALGOS for m in METRICS],
              'two records of 20 to 60 tokens differing in 0 to 8 places at the start, the end or evenly spread, all thresholds')
def large(unit, cx):
    algo, metric = unit
    for n in (20, 31, 32, 33, 60):
        for d in range(0, 9):
            for where in ('start', 'end', 'spread', 'middle'):
                base = ['t%03d' % i for i in range(n)]
                idx = {'start': range(d), 'end': range(n - d, n), 'spread': [i * (n // 9) for i in range(d)],
                       'middle': range(n // 2, n // 2 + d)}[where]
                for how in ('replace', 'drop', 'swap'):
                    other = list(base)
                    for i in idx:
                        other[i] = {'replace': 't%03dx' % i, 'drop': None, 'swap': 'z%03d' % i}[how]
                    other = [t for t in other if t]
                    third = base[:n // 2] + ['q%d' % i for i in range(n // 2)]
                    s = sim(metric, set(base), set(other))
                    for th in (0.5, 0.7, 0.8, 0.9, s, min(1.0, s + 1e-3)):
                        sets = [frozenset(base), frozenset(other), frozenset(third)]
                        if any(th - 2e-6 < sim(metric, a, b) < th - 1e-9 for a, b in itertools.combinations(sets, 2)):
                            continue
                        go(cx, algo, (tuple(base), tuple(other), tuple(third)), metric, th, 'freq')


@check.family('populations', lambda t: [(a, m, o) for a in ALGOS for m in METRICS for o in (None, 'freq', 'crc32')],
              'all 127 non-empty subsets of 7 tokens as one collection, and 64 with repeats; thresholds 0.5, 2/3, 0.8, 1')
def populations(unit, cx):
    algo, metric, o = unit
    ss = list(subsets('abcdefg', 1))
    for recs in (ss, ss[::-1], ss[::2] + ss[:32]):
        for th in (0.5, 2 / 3, 0.8, 1.0):
            go(cx, algo, tuple(recs), metric, th, o)


@check.family('large collections', lambda t: [(a, m, n, o) for a in ALGOS for m in METRICS for n in (300, 513, 1001) for o in ((None, 'freq') if t == 'quick' else (None, 'freq', 'crc32'))],
              '300, 513 and 1001 records in groups of three, sharing tokens with their group and one with everyone, thresholds 0.5 and 0.8')
def collections(unit, cx):
    algo, metric, n, o = unit
    recs = []
    for i in range(n):
        g = i // 3
        recs.append(tuple('g%d.%d' % (g, k) for k in range(4 + g % 3)) + ('all',) + tuple('o%d.%d' % (i, k) for k in range(i % 3)))
    recs = tuple(recs[::2] + recs[1::2])
    index = {}
    for i, r in enumerate(recs):
        index.setdefault(r[0], []).append(i)
    for th in (0.5, 0.8):
        # records of different groups share one token only, out of at least five each
        want = sorted(p for b in index.values() for p in itertools.combinations(b, 2) if sim(metric, set(recs[p[0]]), set(recs[p[1]])) >= th - 1e-9)
        cx.at((algo, 'large collection', n, metric, th, o))
        got = sorted(tuple(sorted(p)) for p in ALGOS[algo](list(range(n)), th, metric=metric, tokenizer=lambda i: list(recs[i]), token_ordering=o))
        cx.same(got, want, '%s of %d records, metric %s, threshold %s, ordering %s' % (algo, n, metric, th, o))


@check.family('very large records', lambda t: [(a, m, n) for a in ALGOS for m in METRICS for n in (127, 128, 129, 255, 256, 257, 1000)],
              'two records of 127 to 1000 tokens differing by up to half of them at the start, the end or spread, thresholds at and above their similarity')
def verylarge(unit, cx):
    algo, metric, n = unit
    for d in sorted({0, 1, 2, 5, n // 10, n // 3, n // 2}):
        for where in ('start', 'end', 'spread'):
            base = ['t%04d' % i for i in range(n)]
            other = list(base)
            for i in {'start': range(d), 'end': range(n - d, n), 'spread': range(0, n, max(1, n // d))if d else ()}[where]:
                other[i] += 'x'
            s = sim(metric, set(base), set(other))
            for th in {s, min(1.0, s + 1e-4), 0.5, 0.8}:
                if not th - 2e-6 < s < th - 1e-9:
                    go(cx, algo, (tuple(base), tuple(other)), metric, th, None)


@check.family('many distinct tokens', lambda t: [(a, o, k) for a in ALGOS for o in (None, 'freq', 'crc32') for k in range(2)],
              '20000 (thorough 100000) records of one token of their own, ASCII and other alphabets, and two records sharing one: no other pair is reported')
def distinct(unit, cx):
    algo, o, k = unit
    n = 20000 if cx.tier == 'quick' else 100000
    toks = [('%s%x' % ('tok\u00e9 \u65e5\U0001f600'[i % 7], i * 2654435761 % 2 ** 32)) if k else 'w%07d' % (i * 17) for i in range(n)]
    seen = set()
    toks = [t for t in toks if not (crc(t) in seen or seen.add(crc(t)))]
    recs = [[t] for t in toks] + [[toks[n // 3]], [toks[1], toks[2]], [toks[5], toks[6]]]
    m = len(toks)
    cx.at((algo, o, n))
    got = sorted(tuple(sorted(p)) for p in ALGOS[algo](list(range(len(recs))), 0.6, tokenizer=recs.__getitem__, token_ordering=o))
    cx.same(got, [(n // 3, m)], '%s of %d records of one token, token_ordering %s' % (algo, m, o))


@check.family('tokens of all alphabets', lambda t: [(a, m, o) for a in ALGOS for m in METRICS for o in (None, 'freq', 'crc32')],
              'every ordered triple of subsets of 4 tokens easily mixed up (case, accents, blanks, other alphabets, the empty token), thresholds 0.5 and 0.8')
def alphabets(unit, cx):
    algo, metric, o = unit
    for toks in (('\u65e5\u672c', '\u4e2d\u56fd', '\u0436', '\u0449'), ('', ' ', 'a', 'A'), ('\u00e9', 'e\u0301', 'e', '\U0001f600'), ('1', '01', '1.0', '\u0661')):
        for recs in itertools.product(list(subsets(toks, 1)), repeat=3):
            for th in (0.5, 0.8) if cx.tier != 'quick' else (0.5,):
                go(cx, algo, recs, metric, th, o)
