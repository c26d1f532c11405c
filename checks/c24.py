import itertools
from fractions import Fraction

from vp.core import Check
from fog.evaluation import best_matching_macro_average, labels_to_clusters, clusters_to_labels

check = Check(
    'C24', 'exhaustive enumeration of pairs of partitions on the real evaluation against exact rational arithmetic',
    'Every pair of partitions of up to 5 (thorough 6) items, overlapping truth clusters, additional items, every malformed input; '
    'every labelling of up to 5 items for the conversions.',
    ['items are not repeated inside a cluster', 'when several predicted clusters match equally well any of them may be retained'])


def partitions(items):
    """Every partition of a list into non-empty clusters, as lists of lists."""
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for p in partitions(rest):
        for i in range(len(p)):
            yield p[:i] + [[first] + p[i]] + p[i + 1:]
        yield [[first]] + p


def reference(truth, predicted):
    """F1 (exact) and the set of acceptable (precision, recall) means."""
    known = {x for c in truth for x in c}
    preds = [set(c) & known for c in predicted]
    F, choices = Fraction(0), [(Fraction(0), Fraction(0))]
    for c in truth:
        t = set(c)
        best, prs = Fraction(-1), set()
        for p in preds:
            tp = len(t & p)
            if tp:
                f = Fraction(2 * tp, len(t) + len(p))
                if f > best:
                    best, prs = f, set()
                if f == best:
                    prs.add((Fraction(tp, len(p)), Fraction(tp, len(t))))
        F += best
        choices = {(a + p, b + r) for a, b in choices for p, r in prs}
    n = len(truth)
    return float(F / n), [(float(a / n), float(b / n)) for a, b in choices]


def go(cx, truth, predicted, extra=False):
    what = 'best_matching_macro_average(%r, %r, allow_additional_items=%s)' % (truth, predicted, extra)
    cx.at(what)
    got = best_matching_macro_average(truth, predicted, allow_additional_items=extra) if extra else best_matching_macro_average(truth, predicted)
    f, prs = reference(truth, predicted)
    cx.checked += 1
    p, r, g = got
    if abs(g - f) > 1e-9 or not any(abs(p - a) < 1e-9 and abs(r - b) < 1e-9 for a, b in prs):
        cx.fail('%s = %r, expected f1 %r and precision, recall among %s' % (what, got, f, prs))
    cx.outcomes[got] = 1


def parts(n):
    return list(partitions(list(range(n))))


@check.family('all pairs of partitions', lambda t: [(n, i) for n in range(1, 6 if t == 'quick' else 7) for i in range(16)],
              'every pair of partitions of up to 5 (thorough 6) items, clusters as lists, tuples and sets, both orders of clusters')
def pairs(unit, cx):
    n, r = unit
    ps = parts(n)
    for t in ps[r::16]:
        for p in ps:
            go(cx, t, p)
            go(cx, [tuple(c) for c in t][::-1], [tuple(c[::-1]) for c in p])
            go(cx, tuple(set(c) for c in t), [frozenset(c) for c in p][::-1])


@check.family('additional items', lambda t: list(range(16)),
              'every partition of 1..3 items against every partition of those and 2 more, allowed and not; strings as items')
def additional(unit, cx):
    k = 0
    for n in (1, 2, 3):
        for t in parts(n):
            for p in parts(n + 2):
                k += 1
                if k % 16 != unit:
                    continue
                go(cx, t, p, True)
                go(cx, [['i%d' % x for x in c] for c in t], [['i%d' % x for x in c] for c in p], True)
                cx.at(('additional items refused', t, p))
                refused(cx, t, p)
        for t in parts(n):
            for p in parts(n):
                go(cx, t, p, True)


def refused(cx, t, p, **kw):
    try:
        got = best_matching_macro_average(t, p, **kw)
    except TypeError:
        cx.checked += 1
        return
    cx.fail('best_matching_macro_average(%r, %r, %s) accepted: %r' % (t, p, kw, got))


@check.family('malformed inputs', lambda t: [0],
              'every truth and predicted made of up to 3 clusters out of the subsets of 3 items: refused exactly when one is empty or has '
              'an empty cluster, an item is missing, added or predicted twice')
def malformed(unit, cx):
    subs = [list(s) for k in range(4) for s in itertools.combinations(range(3), k)]
    colls = [list(c) for k in range(0, 4) for c in itertools.combinations_with_replacement(subs, k)]
    for t in colls:
        for p in colls:
            ti = {x for c in t for x in c}
            pi = {x for c in p for x in c}
            flat = [x for c in p for x in c]
            for extra in (False, True):
                rel = [x for x in flat if x in ti]
                bad = not t or not p or [] in t or [] in p or not ti <= pi or len(set(rel)) != len(rel) or (not extra and not pi <= ti)
                if bad:
                    cx.at(('malformed', t, p, extra))
                    refused(cx, t, p, allow_additional_items=extra)
                else:
                    go(cx, t, p, extra)


@check.family('repeated items', lambda t: [0],
              'every predicted clustering of 2 or 3 items in which an item comes twice in its cluster: refused, or evaluated as if it came once')
def repeats(unit, cx):
    for n in (2, 3):
        for t in parts(n):
            for p in parts(n):
                for k in range(len(p)):
                    for x in p[k]:
                        twice = p[:k] + [p[k] + [x]] + p[k + 1:]
                        cx.at(('repeated item', t, twice))
                        try:
                            got = best_matching_macro_average(t, twice)
                        except TypeError:
                            cx.checked += 1
                            continue
                        f, _ = reference(t, p)
                        cx.expect(abs(got[2] - f) < 1e-9, 'best_matching_macro_average(%r, %r) = %r, f1 should be %r' % (t, twice, got, f))


def from_table(tab):
    """Truth and predicted clusters with tab[i][j] items in truth cluster i and predicted cluster j; predicted clusters keep the order of columns."""
    truth, pred, x = [], [[] for _ in tab[0]], 0
    for row in tab:
        c = []
        for j, k in enumerate(row):
            for _ in range(k):
                c.append(x)
                pred[j].append(x)
                x += 1
        truth.append(c)
    return [c for c in truth if c], [c for c in pred if c]


SHAPES = [(1, 4, 4), (2, 2, 7), (2, 3, 3), (3, 2, 3), (4, 1, 5), (3, 3, 1)]


@check.family('contingency tables', lambda t: [(s, i) for s in SHAPES + ([] if t == 'quick' else [(2, 3, 5), (2, 4, 2), (3, 3, 2)]) for i in range(24)],
              'every table of co-occurrences: 1 x 4 clusters with up to 4 items in common, 2 x 2 with up to 7, 2 x 3 and 3 x 2 with up to 3, '
              '4 x 1 with up to 5, 3 x 3 with up to 1 (thorough: 2 x 3 with up to 5, 2 x 4 and 3 x 3 with up to 2)')
def tables(unit, cx):
    (r, c, m), part = unit
    for k, cells in enumerate(itertools.product(range(m + 1), repeat=r * c)):
        if k % 24 != part or not any(cells):
            continue
        t, p = from_table([cells[i * c:(i + 1) * c] for i in range(r)])
        go(cx, t, p)


@check.family('larger clusterings', lambda t: [10, 50, 200, 513, 1001], '10 to 1001 items: modular, blocks, one cluster, singletons, against each other')
def larger(unit, cx):
    n = unit
    P = [[[i] for i in range(n)], [list(range(n))], [[i for i in range(n) if i % 3 == k] for k in range(3)],
         [list(range(i, min(n, i + 4))) for i in range(0, n, 4)], [list(range(i, min(n, i + 7))) for i in range(0, n, 7)]]
    for t in P:
        for p in P:
            if n > 200 and len(t) * len(p) > 100000:
                continue
            cx.at(('larger', n, len(t), len(p)))
            got = best_matching_macro_average(t, p)
            f = sum(max(Fraction(2 * len(set(c) & set(d)), len(c) + len(d)) for d in p) for c in t) / len(t)
            cx.expect(abs(got[2] - float(f)) < 1e-9, 'f1 %r, expected %r' % (got[2], float(f)))
            cx.expect(all(-1e-9 <= x <= 1 + 1e-9 for x in got), 'scores out of range: %r' % (got,))
            if t is p:
                cx.expect(all(abs(x - 1) < 1e-9 for x in got), 'perfect clustering scored %r' % (got,))


@check.family('labels and clusters', lambda t: [0],
              'every labelling of up to 5 items with 3 labels, as list, tuple, string, mapping and pairs; there and back')
def labels(unit, cx):
    for n in range(0, 6):
        for labs in itertools.product('xyz', repeat=n):
            order = list(dict.fromkeys(labs))
            want = [[i for i in range(n) if labs[i] == l] for l in order]
            for f in (list, tuple, ''.join, lambda x: dict(enumerate(x)), enumerate, lambda x: ((i, l) for i, l in enumerate(x)),
                      lambda x: [0, None, 2.5][0:0] + list(x)):
                cx.at(('labels_to_clusters', labs))
                cx.same(labels_to_clusters(f(labs)), want, 'labels_to_clusters(%r)' % (f(labs),))
            cx.at(('named', labs))
            cx.same(labels_to_clusters({'n%d' % i: l for i, l in enumerate(labs)}), [['n%d' % i for i in c] for c in want], 'mapping of names')
            falsy = [{'x': 0, 'y': None, 'z': ''}[l] for l in labs]
            cx.at(('falsy', falsy))
            cx.same(labels_to_clusters(falsy), want, 'labels_to_clusters(%r)' % falsy)
            for odd in ({'x': (0, 1), 'y': (0, 2), 'z': (1, 1)}, {'x': 1, 'y': -1, 'z': 'a'}, {'x': frozenset([1, 2]), 'y': 'ab', 'z': 'cd'}, {'x': 'é', 'y': 'É', 'z': 'e'},
                        {'x': 1.5, 'y': 1, 'z': '1'}, {'x': -1, 'y': -2, 'z': 2 ** 61 - 2}):
                odd = [odd[l] for l in labs]
                cx.at(('labels', odd), 2)
                cx.same(labels_to_clusters(odd), want, 'labels_to_clusters(%r)' % odd)
                cx.same(labels_to_clusters({(i, 'k'): l for i, l in enumerate(odd)}), [[(i, 'k') for i in c] for c in want], 'labels_to_clusters of a mapping to %r' % odd)
            back = [order.index(l) for l in labs]
            cx.at(('clusters_to_labels', want), 3)
            cx.same(clusters_to_labels(want, flat=True), back, 'clusters_to_labels(%r, flat=True)' % want)
            cx.same(clusters_to_labels(want), dict(enumerate(back)), 'clusters_to_labels(%r)' % want)
            cx.same(clusters_to_labels((tuple(c) for c in want), key=lambda x: 'k%d' % x), {'k%d' % i: l for i, l in enumerate(back)}, 'with a key')
            cx.at(('with a key, flat', want))
            cx.same(clusters_to_labels([['k%d' % i for i in c] for c in want], key=lambda x: int(x[1:]), flat=True), back, 'with a key, flat')
            cx.at(('there and back', want), 2)
            cx.same(labels_to_clusters(clusters_to_labels(want)), want, 'there and back')
            for perm in list(itertools.permutations(want))[:6]:
                cx.at(('clusters_to_labels', perm))
                lab = clusters_to_labels(perm, flat=True)
                cx.expect(all(lab[i] == k for k, c in enumerate(perm) for i in c), 'clusters_to_labels(%r, flat=True) = %r' % (perm, lab))
