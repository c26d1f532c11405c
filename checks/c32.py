import html.parser
import itertools
import re
import tomllib
from collections import Counter

from vp.core import Check
from checks.c28 import normal
from checks.cli_common import run, run_files, to_csv

check = Check(
    'C32', 'exhaustive enumeration of columns on the real command line, whose reports are parsed back and compared with the groups of equal fingerprints',
    'Every column of up to 4 (thorough 5) of 9 values, in both formats; every ASCII character, and every pair of symbols, inside clustered values; larger columns.',
    ['rows have as many cells as the header', 'HTML: values are compared up to the blanks around them and control characters are left out'])


class Reader(html.parser.HTMLParser):
    def __init__(self):
        html.parser.HTMLParser.__init__(self, convert_charrefs=True)
        self.text, self.stack, self.clusters, self.tags, self.bad = '', [], [], Counter(), False

    def handle_starttag(self, tag, attrs):
        self.tags[tag] += 1
        if tag not in VOID:
            self.stack.append(tag)
        if tag == 'ul':
            self.clusters.append((self.text.strip(), []))
        if tag == 'li':
            self.text = ''

    def handle_endtag(self, tag):
        if tag not in VOID and (not self.stack or self.stack.pop() != tag):
            self.bad = True
        self.nested(tag)

    def nested(self, tag):
        if tag == 'li':
            self.clusters[-1][1].append(self.text.strip())
            self.text = ''

    def handle_data(self, data):
        self.text += data


VOID = {'meta', 'br', 'hr', 'link', 'img'}
TAGS = {'html', 'head', 'title', 'style', 'body', 'h1', 'h2', 'div', 'table', 'tr', 'td', 'b', 'p', 'ul', 'li'}


def groups(cells):
    count = Counter(cells)
    g = {}
    for v in count:
        k = ' '.join(normal(v))
        if k:
            g.setdefault(k, set()).add(v)
    return count, {frozenset(x) for x in g.values() if len(x) > 1}


def toml(cx, cells, p=0, runner=run, text=None):
    rows = [['x', 'y']] + [[c, 'Ab'] if p == 0 else ['Ab', c] for c in cells]
    cx.at(('toml', cells))
    out = runner(['cluster', 'xy'[p]], to_csv(rows) if text is None else text)
    try:
        doc = tomllib.loads(out)
    except tomllib.TOMLDecodeError as e:
        cx.fail('fog cluster of %r: invalid TOML, %s' % (cells, e))
    count, want = groups(cells)
    s = doc['stats']
    cx.same((s['lines'], s['nb_distinct_values'], s['nb_clusters']), (len(cells), len(count), len(want)), 'lines, values, clusters reported for %r' % cells)
    cs = doc.get('cluster', [])
    cx.same(sorted(map(sorted, (([v[0][0] for v in c['values']]) for c in cs))), sorted(map(sorted, want)), 'clusters reported for %r' % cells)
    cx.same(len({c['id'] for c in cs}), len(cs), 'identifiers of the clusters')
    for c in cs:
        vs = [v[0][0] for v in c['values']]
        ns = [v[1][0] for v in c['values']]
        cx.same(ns, [count[v] for v in vs], 'rows of %r in %r' % (vs, cells))
        cx.same(ns, sorted(ns, reverse=True), 'order of the values of %r' % cells)
        cx.same((c['nb_values'], c['nb_rows'], c['harmonized'], c['harmonize']), (len(vs), sum(ns), vs[0], False), 'summary of a cluster of %r' % cells)
    if len(cx.outcomes) < 2000:
        cx.outcomes[tuple(sorted(tuple(c['harmonized']) for c in cs))] = 1


def htm(cx, cells, p=0, runner=run, text=None):
    rows = [['x', 'y']] + [[c, 'Ab'] if p == 0 else ['Ab', c] for c in cells]
    cx.at(('html', cells))
    out = runner(['cluster', 'xy'[p], '-t', 'html'], to_csv(rows) if text is None else text)
    r = Reader()
    r.feed(out)
    r.close()
    count, want = groups(cells)
    cx.expect(set(r.tags) <= TAGS, lambda: 'fog cluster -t html of %r: tags %s' % (cells, sorted(r.tags)))
    cx.expect(not r.bad and not r.stack, lambda: 'fog cluster -t html of %r: the tags are not balanced' % (cells,))
    cx.same(sorted(sorted(vs) for _, vs in r.clusters), sorted(sorted(v.strip() for v in c) for c in want), 'clusters in the HTML report of %r' % cells)
    left = list(want)
    for title, vs in r.clusters:
        numbers = [int(x) for x in re.findall(r'\d+', title)]
        match = [c for c in left if sorted(v.strip() for v in c) == sorted(vs)]
        ok = [c for c in match if numbers[-2:] == [len(c), sum(count[v] for v in c)]]
        cx.expect(ok, lambda: 'title %r of %r in %r' % (title, vs, cells))
        left.remove(ok[0])
        if len({v.strip() for v in ok[0]}) == len(ok[0]):
            ns = [count[w] for v in vs for w in ok[0] if w.strip() == v]
            cx.same(ns, sorted(ns, reverse=True), 'order of the values of the HTML report of %r' % cells)
    flat = re.sub(r'<[^>]*>|\s+', ' ', out)
    for name, v in (('Lines', len(cells)), ('Distinct values', len(count)), ('Found clusters', len(want))):
        m = re.search(r'%s\s+([\d,]+)' % name, flat)
        cx.expect(m and int(m.group(1).replace(',', '')) == v, lambda: '%s in the HTML report of %r' % (name, cells))


VALUES = ['ab', 'AB', 'b a', 'a b', 'b.a', '', '!', 'c', 'Ç']


@check.family('every column', lambda t: list(itertools.product(VALUES, repeat=2)) + [()], lambda t: 'every column of up to %d of 9 values' % (4 if t == 'quick' else 5))
def columns(unit, cx):
    if not unit:
        for cells in [[]] + [[v] for v in VALUES]:
            for p in (0, 1):
                toml(cx, cells, p)
                htm(cx, cells, p)
        return
    for k in range(0, 3 if cx.tier == 'quick' else 4):
        for r in itertools.product(VALUES, repeat=k):
            cells = list(unit + r)
            toml(cx, cells, len(cells) % 2)
            if k < 2:
                htm(cx, cells, len(cells) % 2)


SYMBOLS = '"\\\'<>&\n\t#[]=,.;%{} /'


@check.family('every character', lambda t: list(range(1, 0x180)) + [0x2028, 0x2029, 0xfeff, 0xfffd, 0x1f600, 0x10ffff],
              'every character up to U+017F in clustered values (but the carriage return), before each of 22 symbols')
def characters(unit, cx):
    c = chr(unit)
    if c == '\r':
        return
    for x in [''] + list(SYMBOLS):
        cells = ['a%s%s' % (c, x), 'A%s%s' % (c, x), 'a%s%s' % (c, x), 'b']
        toml(cx, cells)
        toml(cx, ['%s%s a' % (c, x), 'a %s%s' % (x, c)])
        if unit >= 32 or c in '\n\t':
            htm(cx, cells)
    for s in ('&lt;%s', '&amp;%sA', '<b>%s</b>', '\\n%s', '\\u00%s', '"""%s', '</li>%s', '<!--%s'):
        cells = [s % c, '-' + s % c, '.' + s % c, '-' + s % c]
        toml(cx, cells)
        if unit >= 32:
            htm(cx, cells)


@check.family('larger columns', lambda t: [10, 40, 150, 1200, 5000] + ([40000] if t != 'quick' else []), 'columns of up to 5000 (thorough 40000) rows, through files and streams, with blank lines')
def larger(unit, cx):
    n = unit
    cells = [('%s %s' % (chr(97 + k % 7), chr(97 + k % 5))) if k % 3 else ('%s, %s' % (chr(97 + k % 5), chr(65 + k % 7))) for k in range(n)]
    for runner in (run, run_files):
        for f in (toml, htm):
            f(cx, cells, 0, runner)
            f(cx, cells, 1, runner)
            f(cx, cells, 0, runner, to_csv([['x', 'y']] + [[c, 'z'] for c in cells]).replace('\r\n', '\r\n\r\n'))
    cells = ['%d' % k for k in range(n)] + ['%d.' % k for k in range(n)]
    toml(cx, cells)
    if n <= 1200:
        htm(cx, cells)


COUNTS = [1, 2, 3, 9, 10, 11, 20, 99, 100, 101, 255, 256, 999, 1000, 1001]


@check.family('numbers of rows', lambda t: list(itertools.product(COUNTS, repeat=2)), '2 or 3 spellings of one value on every number of rows out of 15 (3: out of 9), and a second cluster')
def numbers(unit, cx):
    for c in [0] + (COUNTS[:9] if max(unit) < 100 else []):
        for cells in (['X'] * unit[0] + ['x'] * unit[1] + ['x.'] * c,
                      ['x!'] * c + ['y', 'Y', 'y'] + ['X.'] * unit[1] + ['xX'] + ['x'] * unit[0]):
            toml(cx, cells)
            htm(cx, cells)


@check.family('spellings', lambda t: ['toml', 'html'], 'every spelling and order of the options, before and after the column')
def spelt(unit, cx):
    from checks.c31 import spellings
    text = to_csv([['x', 'y', 'z']] + [['b.a', 'A b', 'a'], ['a', 'b a', 'a'], ['A', 'c', 'a']])
    for col, want in (('x', [['A', 'a']]), ('y', [['A b', 'b a']]), ('z', [])):
        options = [('-a', '--algorithm', 'fingerprint_collision'), ('-t', '--type', unit)]
        for k in range(3):
            for chosen in itertools.combinations(options, k):
                if unit == 'html' and options[1] not in chosen:
                    continue
                for args in spellings(['cluster', col], chosen):
                    cx.at((args, text))
                    out = run(args, text)
                    if unit == 'toml':
                        got = [sorted(v[0][0] for v in c['values']) for c in tomllib.loads(out).get('cluster', [])]
                    else:
                        r = Reader()
                        r.feed(out)
                        r.close()
                        got = [sorted(vs) for _, vs in r.clusters]
                    cx.same(got, want, 'clusters of fog %s of %r' % (' '.join(args), text))


@check.family('wide tables', lambda t: list(range(0, 40, 3)) + [10, 11, 38], 'one of 40 columns')
def wide(unit, cx):
    header = ['h%d' % i for i in range(40)]
    rows = [['v%d' % (i * 7 + k) for i in range(40)] for k in range(6)]
    for k, v in enumerate(('b a', 'a b', 'A, b', 'c', 'C', 'd')):
        rows[k][unit] = v
    cx.at((header[unit], rows))
    doc = tomllib.loads(run(['cluster', header[unit]], to_csv([header] + rows)))
    cx.same(sorted(sorted(v[0][0] for v in c['values']) for c in doc['cluster']), [['A, b', 'a b', 'b a'], ['C', 'c']], 'clusters of column %d of 40' % unit)
