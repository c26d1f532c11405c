import hashlib
import itertools

from vp.core import Check, subsets
from vp.elsewhere import elsewhere
from fog.lsh import (MinHash, LSBMinHash, SuperMinHash, minhash_similarity, lsb_minhash_similarity, simhash,
                     simhash_distance, simhash_similarity)

check = Check(
    'C19', 'exhaustive enumeration of token collections on the real signatures against their algebra',
    'Every pair of subsets of 6 tokens with every ordering and repetition of small ones, several signature lengths and seeds; '
    'every pair of short signatures for the estimators; simhash against bitwise majority.',
    ['tokens are strings; a string given as a whole is the collection of its characters',
     'the signature of an empty collection is only claimed to be constant'])


def makers(h, seed):
    yield 'MinHash', (lambda: MinHash(h, seed=seed)), h
    yield 'MinHash numpy', (lambda: MinHash(h, seed=seed, use_numpy=True)), h
    yield 'SuperMinHash', (lambda: SuperMinHash(h)), h
    if h <= 2:
        yield 'LSBMinHash', (lambda: LSBMinHash(precision=h, seed=seed)), h


def sig(m, tokens):
    return [x if isinstance(x, float) else int(x) for x in m.create_signature(tokens)]


@check.family('union law', lambda t: [(h, s, k) for h in (1, 2, 3, 8, 16, 64) for s in (0, 1, 2) for k in range(4)],
              'every pair of non-empty subsets of 5 (thorough 6) tokens: the signature of the union is the elementwise minimum, signatures '
              'of the right length and range, the same from two instances')
def union(unit, cx):
    h, seed, k = unit
    tokens = ['', 'a', 'tok', '\u00e9\u00e8', 'a b', '\U0001f600'][:5 if cx.tier == 'quick' else 6]
    ss = list(subsets(tokens, 1))
    for name, mk, ln in makers(h, seed):
        m, m2 = mk(), mk()
        S = {}
        for s in ss:
            cx.at((name, h, seed, s), 2)
            S[s] = sig(m, list(s))
            cx.same(sig(m2, list(s)), S[s], '%s(%d, seed=%d): two instances, tokens %r' % (name, h, seed, s))
            cx.expect(len(S[s]) == ln, '%s(%d): signature of length %d' % (name, h, len(S[s])))
            top = (1 << 64) if name == 'LSBMinHash' else (1 << 32)
            cx.expect(all(0 <= x < top for x in S[s]), '%s(%d): value out of range in %r' % (name, h, S[s]))
            cx.outcomes[(name, h, tuple(S[s]))] = 1
        if name == 'LSBMinHash':
            continue
        for a in ss[k::4]:
            for b in ss:
                u = tuple(t for t in tokens if t in a or t in b)
                cx.at((name, h, seed, a, b), 0)
                cx.same(S[u], [min(x, y) for x, y in zip(S[a], S[b])], '%s(%d, seed=%d) of %r and %r: union' % (name, h, seed, a, b))


@check.family('lowest bits', lambda t: [(p, s) for p in (1, 2, 3) for s in (1, 2, 3)],
              'LSB signatures against the low bits of a MinHash with 64 times the precision and the same seed, every subset of 6 tokens')
def lsb(unit, cx):
    p, seed = unit
    m, l = MinHash(64 * p, seed=seed), LSBMinHash(precision=p, seed=seed)
    for s in subsets(['a', 'b', 'c', 'dd', 'ee', 'ff'], 1):
        cx.at(('LSBMinHash', p, seed, s), 2)
        full = sig(m, s)
        want = [sum((full[i * 64 + b] & 1) << b for b in range(64)) for i in range(p)]
        cx.same(sig(l, s), want, 'LSBMinHash(%d, seed=%d) of %r' % (p, seed, s))


@check.family('only the set of tokens matters', lambda t: [(h, i) for h in (1, 2, 5) for i in range(4)],
              'every sequence over 3 tokens up to length 4 in every container: the same signature as the sorted set; strings too')
def sets(unit, cx):
    h, r = unit
    for name, mk, ln in makers(h, 5):
        m = mk()
        base = {}
        for s in subsets('abc', 0):
            cx.at((name, h, s))
            base[frozenset(s)] = sig(m, list(s))
        for n in range(5):
            for seq in list(itertools.product('abc', repeat=n))[r::4]:
                for f in (list, tuple, set, iter, dict.fromkeys, frozenset):
                    cx.at((name, h, seq))
                    cx.same(sig(m, f(seq)), base[frozenset(seq)], '%s(%d) of %r as %s' % (name, h, seq, f))
        strs = {}
        for n in range(5):
            for seq in list(itertools.product('ab\U0001f600', repeat=n))[r::4]:
                w = ''.join(seq)
                cx.at((name, h, w))
                got = sig(m, w)
                cx.same(got, strs.setdefault(frozenset(w), got), '%s(%d) of string %r' % (name, h, w))
        # an earlier signature does not influence a later one
        cx.at((name, h, 'again'))
        cx.same(sig(mk(), ['a', 'b']), sig(m, ['a', 'b']), 'after other signatures')
    a = [sig(MinHash(4, seed=s), ['a', 'b']) for s in (1, 2, 3)]
    cx.expect(len(set(map(tuple, a))) > 1, 'the seed has no influence')


@check.family('estimators', lambda t: list(range(8)),
              'every pair of signatures of length 1..4 over 3 values; every pair of LSB words out of 200 patterns; every bit distance')
def estimators(unit, cx):
    for n in range(1, 5):
        sigs = list(itertools.product((0, 7, 2 ** 32 - 1), repeat=n))
        for a in sigs[unit::8]:
            for b in sigs:
                cx.at(('minhash_similarity', a, b))
                got = minhash_similarity(list(a), list(b))
                want = sum(x == y for x, y in zip(a, b)) / n
                cx.expect(abs(got - want) < 1e-12, 'minhash_similarity(%r, %r) = %r, expected %r' % (a, b, got, want))
    for n in (16, 31, 32, 33, 64, 100, 128, 129, 255, 256, 257, 512, 1000, 1024, 5000):
        for d in sorted({0, 1, n // 3, n // 2, n - 1, n}):
            a, b = [3 * i for i in range(n)], [3 * i + (d > (i + unit) % n) for i in range(n)]
            cx.at(('minhash_similarity', n, d))
            got = minhash_similarity(a, b)
            cx.expect(abs(got - (n - d) / n) < 1e-12, 'minhash_similarity of signatures of %d of which %d differ = %r' % (n, d, got))
            if n <= 257:
                cx.at(('lsb_minhash_similarity', n, d))
                got = lsb_minhash_similarity(a, b)
                want = 1 - 2 * sum(bin(p ^ q).count('1') for p, q in zip(a, b)) / (64 * n)
                cx.expect(abs(got - want) < 1e-12, 'lsb_minhash_similarity of %d words' % n)
    pats = [0, 1, 2 ** 63, 2 ** 64 - 1, 0x5555555555555555, 0xAAAAAAAAAAAAAAAA, 0x3333333333333333, 0x0F0F0F0F0F0F0F0F]
    pats += [(1 << i) - 1 for i in range(1, 64)] + [1 << i for i in range(1, 63)] + [((1 << 64) - 1) ^ (1 << i) for i in range(64)]
    for x in pats[unit::8]:
        for y in pats:
            for A, B in (((x,), (y,)), ((x, y), (y, y)), ((x, 0, y), (y, 1, x))):
                cx.at(('lsb_minhash_similarity', A, B))
                got = lsb_minhash_similarity(A, B)
                want = 1 - 2 * sum(bin(p ^ q).count('1') for p, q in zip(A, B)) / (64 * len(A))
                cx.expect(abs(got - want) < 1e-12, 'lsb_minhash_similarity(%r, %r) = %r, expected %r' % (A, B, got, want))
            for f in (64, 128):
                cx.at(('simhash_similarity', x, y, f), 2)
                want = bin(x ^ y).count('1') / f
                cx.expect(abs(simhash_distance(x, y, f) - want) < 1e-12, 'simhash_distance(%r, %r, %d)' % (x, y, f))
                cx.expect(abs(simhash_similarity(x, y, f) - (1 - want)) < 1e-12, 'simhash_similarity(%r, %r, %d)' % (x, y, f))
    wide = [0, 1 << 511, (1 << 512) - 1, 1 << 255, 1 << 256, 1 << 128, 1 << 127, 1 << 64, (1 << 128) - 1, (1 << 256) - 1, sum(1 << i for i in range(0, 512, 3))]
    wide += [1 << i for i in range(unit, 512, 8)] + [(1 << i) - 1 for i in range(unit, 512, 8)]
    for x in wide:
        for y in wide[:11]:
            for f in (128, 256, 512):
                p, q = x & ((1 << f) - 1), y & ((1 << f) - 1)
                cx.at(('simhash_similarity', p, q, f), 2)
                want = bin(p ^ q).count('1') / f
                cx.expect(abs(simhash_distance(p, q, f) - want) < 1e-12, 'simhash_distance(%#x, %#x, %d)' % (p, q, f))
                cx.expect(abs(simhash_similarity(p, q, f) - (1 - want)) < 1e-12, 'simhash_similarity(%#x, %#x, %d)' % (p, q, f))
                if f == 128:
                    cx.at(('simhash_similarity', p, q), 2)
                    cx.expect(abs(simhash_distance(p, q) - want) < 1e-12, 'simhash_distance(%#x, %#x)' % (p, q))
                    cx.expect(abs(simhash_similarity(p, q) - (1 - want)) < 1e-12, 'simhash_similarity(%#x, %#x)' % (p, q))
    # every 16 bit pattern in every lane
    for lane in (0, 16, 32, 48):
        for w in range(unit, 1 << 16, 8 * (16 if cx.tier == 'quick' else 1)):
            cx.at(('lane', lane, w))
            got = lsb_minhash_similarity((w << lane,), (0,))
            cx.expect(abs(got - (1 - 2 * bin(w).count('1') / 64)) < 1e-12, 'lsb_minhash_similarity of %#x' % (w << lane))


def bits(token, f):
    hf = {256: hashlib.sha256, 512: hashlib.sha512}.get(f, hashlib.md5)
    return int(hf(token.encode()).hexdigest()[:f // 4], 16)


@check.family('simhash', lambda t: [4, 8, 16, 32, 64, 128, 256, 512],
              'every sequence over 4 tokens up to length 4 (order and containers vary), every signature size, against bitwise majority')
def sim(unit, cx):
    f = unit
    toks = ['a', 'b', '\u00e9', '\U0001f600x']
    B = {t: bits(t, f) for t in toks}
    for n in range(0, 5):
        for seq in itertools.product(toks, repeat=n):
            want = sum(1 << i for i in range(f) if sum(1 if B[t] >> i & 1 else -1 for t in seq) > 0)
            for mk in (list, iter) if n > 2 else (list, tuple, iter):
                cx.at(('simhash', seq, f))
                got = simhash(mk(seq), f=f)
                cx.same(got, want, 'simhash(%r, f=%d)' % (seq, f))
            if f == 128:
                cx.at(('simhash', seq))
                cx.same(simhash(list(seq)), want, 'simhash(%r)' % (seq,))
            cx.outcomes[want] = 1
    for n in (20, 63, 64, 65, 127, 128, 129, 256, 300, 1000) + ((5000,) if f <= 128 else ()):
        many = ['t%d' % (i * i % (n + 1)) for i in range(n)]
        H = [bits(t, f) for t in many]
        want = sum(1 << i for i in range(f) if 2 * sum(x >> i & 1 for x in H) > n)
        cx.at(('simhash', n, f), 2)
        cx.same((simhash(many, f=f), simhash(iter(many), f=f)), (want, want), 'simhash of %d tokens, f=%d' % (n, f))
    cx.at(('identical', f), 3)
    s, o = simhash(['a', 'b', 'c'], f=f), simhash(['d'], f=f)
    cx.expect(simhash_similarity(s, s, f) == 1 and simhash_distance(s, s, f) == 0, 'identical signatures')
    cx.expect(simhash_similarity(s, o, f) == simhash_similarity(o, s, f), 'symmetry')


@check.family('estimates', lambda t: [(h, s, n) for h in (256, 1024) for s in (1, 2, 3) for n in (10, 40, 300)] + [(256, 1, 1000), (128, 1, 1000)],
              'pairs of sets of 10 to 1000 tokens at every tenth of Jaccard similarity: the estimate is within 0.2 of it (0.25 for 128 positions; fixed seeds)')
def estimates(unit, cx):
    h, seed, n = unit
    ms = [('MinHash', MinHash(h, seed=seed), minhash_similarity), ('MinHash numpy', MinHash(h, seed=seed, use_numpy=True), minhash_similarity),
          ('SuperMinHash', SuperMinHash(h), minhash_similarity), ('LSBMinHash', LSBMinHash(precision=h // 64, seed=seed), lsb_minhash_similarity)]
    if n > 40:
        ms = [x for x in ms if x[0] in ('MinHash numpy', 'SuperMinHash')]
    for name, m, f in ms:
        step = max(1, n // 10) if n < 1000 else n // 2
        a = ['%d-%d' % (seed, i) for i in range(n)]
        A = m.create_signature(a)
        for k in range(0, n + 1, step):
            b = ['%d-%d' % (seed, i) for i in range(n - k, 2 * n - k)]
            cx.at((name, h, seed, n, k), 2)
            got = f(A, m.create_signature(b))
            want = k / (2 * n - k)
            cx.expect(abs(got - want) < (0.2 if h > 128 else 0.25), '%s(%d): estimate %.3f of a similarity of %.3f of sets of %d' % (name, h, got, want, n))
            if k == n:
                cx.expect(got == 1.0, '%s(%d): equal sets estimated at %r' % (name, h, got))


@check.family('many tokens', lambda t: [(h, n) for h in (1, 4, 65) for n in (20, 64, 65, 129, 256, 257, 1000) + ((5000,) if t != 'quick' else ())],
              'sets of 20 to 1000 (thorough 5000) tokens: the signature is the minimum of those of the tokens, repeated or not, in any order')
def many(unit, cx):
    h, n = unit
    toks = ['t%d' % (i * 7919) for i in range(n)]
    for name, mk, ln in makers(h, 3):
        if name == 'LSBMinHash' or (name == 'SuperMinHash' and n > 300):
            continue
        m = mk()
        cx.at((name, h, n), n + 3)
        want = [min(c) for c in zip(*(sig(m, [t]) for t in toks))]
        cx.same(sig(m, toks), want, '%s(%d) of %d tokens' % (name, h, n))
        cx.same(sig(m, toks[::-1] + toks[:5]), want, '%s(%d) of %d tokens, other order' % (name, h, n))
        cx.same(sig(m, set(toks)), want, '%s(%d) of a set of %d tokens' % (name, h, n))


@check.family('tokens are told apart', lambda t: [(k, i) for k in ('words', 'letters', 'characters') for i in range(8)],
              '20000 (thorough 200000) words over several alphabets and characters of every plane: no two of them have the same signature '
              '(thorough: at most 30 pairs, since tokens are hashed to 32 bits and 200000 of them are expected to collide 4.7 times)')
def apart(unit, cx):
    kind, r = unit
    n = 20000 if cx.tier == 'quick' else 200000
    if kind == 'words':
        toks = ['%s%x' % ('tok\u00e9 \u65e5\U0001f600'[i % 7], i * 2654435761 % 2 ** 32) for i in range(n)]
    elif kind == 'letters':
        toks = [''.join(t) for k in range(4) for t in itertools.product('abz\u00e9\u00e8\u0436\u65e5\u672c\U0001f600\U0001f601 ', repeat=k)]
    else:
        toks = [chr(c + p) for c in list(range(1, 0x300)) + list(range(0x300, 0x10000, 61 if cx.tier == 'quick' else 7)) for p in range(0, 0x110000, 0x10000) if not 0xd800 <= c + p < 0xe000]
    name, m = (('MinHash', MinHash(3, seed=r)), ('MinHash numpy', MinHash(3, seed=r, use_numpy=True)), ('SuperMinHash', SuperMinHash(24)), ('LSBMinHash', LSBMinHash(2, seed=r)))[r % 4]
    if r >= 4:
        toks = toks[::-1]
    if name == 'LSBMinHash' or cx.tier == 'quick' and name == 'SuperMinHash':
        toks = toks[::10]
    seen, clash = {}, 0
    for t in toks:
        cx.at((name, t))
        s = tuple(sig(m, t if kind == 'characters' else [t]))
        clash += seen.setdefault(s, t) != t
        cx.expect(clash <= (0 if cx.tier == 'quick' else 30), '%s gives %r and %r the same signature' % (name, seen[s], t))


@check.family('estimates of all alphabets', lambda t: [(k, s) for k in range(5) for s in (1, 2)],
              'every pair of subsets of 6 tokens or characters of several alphabets: the estimate is within 0.3 of the Jaccard similarity (256 positions, fixed seeds)')
def alphabets(unit, cx):
    k, seed = unit
    toks = (['\u65e5\u672c', '\u4e2d\u56fd', '\ud55c', '\u0436', '\U0001f600', '\U0001f601'], '\u65e5\u672c\u0436\u00e9\U0001f600\U0001f601', 'abcde\u00e9', 'aAbB\u00e9\u00c9', ['a', 'A', ' a', 'tok', 'Tok', 'tok '])[k]
    for name, m in (('MinHash', MinHash(256, seed=seed)), ('MinHash numpy', MinHash(256, seed=seed, use_numpy=True)), ('SuperMinHash', SuperMinHash(256))):
        S = {}
        for s in subsets(list(toks), 1):
            cx.at((name, seed, s))
            S[frozenset(s)] = m.create_signature(''.join(s) if isinstance(toks, str) else list(s))
        for a, b in itertools.combinations(S, 2):
            got, want = minhash_similarity(S[a], S[b]), len(a & b) / len(a | b)
            cx.expect(abs(got - want) < 0.3, '%s: estimate %.3f of the similarity %.3f of %s and %s' % (name, got, want, sorted(a), sorted(b)))


def signatures():
    toks = ['', 'a', 'tok', '\u00e9\u00e8', 'a b', '\U0001f600', 'x1', 'x2']
    out = [sig(mk(), s) for _, mk, _ in [*makers(2, 7), *makers(16, 1)] for s in (toks, toks[:3], set(toks), 'some text \u65e5')]
    return out + [simhash(toks, f=f) for f in (8, 64, 128, 256, 512)]


@check.family('other processes', lambda t: list(range(1, 4 if t == 'quick' else 17)), 'signatures of the same tokens in processes whose strings hash otherwise')
def processes(unit, cx):
    want = signatures()
    cx.at(('string hash seed', unit), len(want))
    cx.same(elsewhere('checks.c19', 'signatures()', unit), want, 'signatures in a process with other string hashes')


# seeds and characters for which a hash of the character lies between 2^32 and the prime used, found by search
HIGH = {'MinHash numpy': [(19, 981372), (23, 949186), (27, 545617), (28, 441535), (28, 185246), (30, 252568), (35, 24309)],
        'MinHash': [(3, 114825), (4, 820385), (5, 887458), (22, 727029), (22, 897006), (22, 167915), (22, 934974), (24, 1013087), (25, 235746), (29, 798519)]}


@check.family('highest hashes', lambda t: [(n, k) for n in HIGH for k in range(len(HIGH[n]))],
              'characters whose hash exceeds 32 bits, alone and with each of 40 others: values on 32 bits, and the union is the minimum')
def highest(unit, cx):
    name, k = unit
    seed, c = HIGH[name][k]
    m = MinHash(64, seed=seed, use_numpy=name != 'MinHash')
    cx.at((name, seed, c))
    one = sig(m, chr(c))
    cx.expect(all(0 <= x < 1 << 32 for x in one), '%s(64, seed=%d): value out of range in %r' % (name, seed, one))
    for d in list(range(97, 117)) + list(range(c + 1, c + 21)):
        cx.at((name, seed, c, d), 2)
        two = sig(m, chr(d))
        cx.same(sig(m, chr(c) + chr(d)), [min(x, y) for x, y in zip(one, two)], '%s(64, seed=%d) of %r and %r: union' % (name, seed, chr(c), chr(d)))


@check.family('seeds', lambda t: list(range(4)), 'seeds 0..299, powers of two up to 2**32 - 1 and beyond, strings: two instances agree, another seed gives other signatures, '
              'also after other instances were made')
def seeds(unit, cx):
    kind = ('MinHash', 'MinHash numpy', 'LSBMinHash', 'lengths')[unit]
    mk = {'MinHash': lambda s: MinHash(4, seed=s), 'MinHash numpy': lambda s: MinHash(4, seed=s, use_numpy=True), 'LSBMinHash': lambda s: LSBMinHash(1, seed=s),
          'lengths': lambda s: MinHash(3 + s % 5 if isinstance(s, int) else 3, seed=s)}[kind]
    ss = list(range(300)) + [2 ** i for i in range(9, 32)] + [2 ** 32 - 1]
    if kind != 'MinHash numpy':
        ss += [2 ** 32, 2 ** 40 + 7, 2 ** 64, 'abc', 'abd']
    first, seen = {}, {}
    for s in ss:
        cx.at((kind, 'seed', s))
        first[s] = tuple(sig(mk(s), ['a', 'tok', 'x y']))
        cx.expect(seen.setdefault(first[s], s) == s, '%s: seeds %r and %r give the same signature' % (kind, seen[first[s]], s))
    for s in ss[::-1]:
        cx.at((kind, 'seed', s, 'again'))
        m = mk(s)
        mk(12345)
        cx.same(tuple(sig(m, {'x y', 'a', 'tok'})), first[s], '%s: another instance with seed %r' % (kind, s))
