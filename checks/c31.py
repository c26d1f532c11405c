import itertools

from unidecode import unidecode

from vp.core import Check
from checks.c28 import normal
from checks.cli_common import run, run_files, to_csv, from_csv

check = Check(
    'C31', 'exhaustive enumeration of tables and options on the real command line against a row model',
    'fog split: every table of up to 2 rows of 9 cells, 3 positions, 4 separators, with and without target and new name; fog transform: every '
    'chain of up to 3 operations, 3 positions, every placement of the result; awkward cells, blank lines, files.',
    ['rows have no less cells than the header', 'cells hold no carriage return'])

CELLS = ['', 'x', 'a|b', '|', 'a||b|', 'q"u|,o', 'l\nm|n', 'é, ü', 'a b']


def show(x):
    return repr(x) if len(repr(x)) < 300 else repr(x)[:300] + '...'


def split(cx, header, rows, column, sep='|', target=None, rename=None, runner=run, text=None):
    args = ['split', column]
    if sep != '|':
        args += ['-s', sep]
    if target is not None:
        args += ['-t', target]
    if rename is not None:
        args += ['-r', rename]
    p = header.index(column)
    head = list(header)
    if target is not None:
        head.append(target)
    if rename is not None:
        head[p] = rename
    want = [head]
    for r in rows:
        for v in r[p].split(sep):
            want.append(r + [v] if target is not None else r[:p] + [v] + r[p + 1:])
    cx.at((args, header, rows))
    got = from_csv(runner(args, to_csv([header] + rows) if text is None else text))
    cx.checked += 1
    if got != want:
        cx.fail('fog %s of %s: got %s, expected %s' % (' '.join(args), show([header] + rows), show(got), show(want)))
    if len(cx.outcomes) < 2000:
        cx.outcomes[tuple(map(tuple, got))] = 1


def layout(p, cell, k):
    row = ['u%d' % k, 'v|w', '']
    row[p] = cell
    return row


@check.family('split', lambda t: [(p, a) for p in range(3) for a in CELLS],
              'every table of 0 to 2 rows of 9 cells in 3 positions, with separators | , space and the two letter one, target and new name or not')
def splits(unit, cx):
    p, a = unit
    header = ['c0', 'c1', 'c2']
    col = header[p]
    for target, rename in itertools.product((None, 't', 'c0'), (None, 'r')):
        for sep in ('|', ',', ' ', '||'):
            split(cx, header, [], col, sep, target, rename)
            split(cx, header, [layout(p, a, 0)], col, sep, target, rename)
            for b in CELLS:
                if sep != '|' and b not in ('a||b|', 'q"u|,o') and cx.tier == 'quick':
                    continue
                split(cx, header, [layout(p, a, 0), layout(p, b, 1)], col, sep, target, rename)
                if cx.tier != 'quick':
                    for c in CELLS:
                        split(cx, header, [layout(p, a, 0), layout(p, b, 1), layout(p, c, 2)], col, sep, target, rename)


OPS = {
    'fingerprint': lambda v: ' '.join(normal(v)),
    'len': len,
    'lower': str.lower,
    'squeeze': lambda v: ''.join(k for k, _ in itertools.groupby(v)),
    'strip': str.strip,
    'unidecode': unidecode,
    'upper': str.upper,
}
VALUES = ['', ' Éé  aa ', 'bb B\n\nx', 'ÀÀ-1, "q"', '中中']


def transform(cx, header, rows, column, chain, f, target=None, after=False, runner=run, text=None, evaluate=False):
    args = ['transform', column, chain]
    if target is not None:
        args += ['-t', target]
    if after:
        args += ['-a']
    if evaluate:
        args += ['--eval']
    p = header.index(column)

    def place(row, v):
        if target is None:
            return row[:p] + [v] + row[p + 1:]
        if after:
            return row[:p + 1] + [v] + row[p + 1:]
        return row + [v]
    want = [place(header, target) if target is not None else header] + [place(r, str(f(r[p]))) for r in rows]
    cx.at((args, header, rows))
    got = from_csv(runner(args, to_csv([header] + rows) if text is None else text))
    cx.checked += 1
    if got != want:
        cx.fail('fog %s of %s: got %s, expected %s' % (' '.join(args), show([header] + rows), show(got), show(want)))
    if len(cx.outcomes) < 2000:
        cx.outcomes[tuple(map(tuple, got))] = 1


def chains(t):
    strs = [o for o in OPS if o != 'len']
    out = []
    for k in range(0, 3):
        for c in itertools.product(strs, repeat=k):
            out += [c + (o,) for o in OPS]
    return out


@check.family('transform', chains, 'every chain of up to 3 operations, 3 positions, replaced, appended, or put after')
def transforms(unit, cx):
    def f(v):
        for o in unit:
            v = OPS[o](v)
        return v
    header = ['c0', 'c1', 'c2']
    for p in range(3):
        rows = [layout(p, v, k) for k, v in enumerate(VALUES)]
        for target, after in ((None, False), ('t', False), ('t', True), (None, True), ('c1', True)):
            if len(unit) == 3 and cx.tier == 'quick' and (p != 1 or after):
                continue
            transform(cx, header, rows, header[p], ','.join(unit), f, target, after)


@check.family('transform expressions', lambda t: [0, 1, 2], 'expressions over the value, in 3 positions, replaced, appended, or put after')
def expressions(unit, cx):
    header = ['c0', 'c1', 'c2']
    rows = [layout(unit, v, k) for k, v in enumerate(VALUES)]
    for e, f in (('value', str), ('value.upper()', str.upper), ('unidecode(value)', unidecode), ('len(value)', len), ('value[::-1]', lambda v: v[::-1]),
                 ('unidecode(value).lower() + value', lambda v: unidecode(v).lower() + v), ('1', lambda v: 1), ("value.replace('a', 'b')", lambda v: v.replace('a', 'b')),
                 ("'A-' + value + 'É'", lambda v: 'A-' + v + 'É'), ("'X' if value.strip() else 'EMPTY'", lambda v: 'X' if v.strip() else 'EMPTY'),
                 (" value ", str), ("value.split(',')[-1]", lambda v: v.split(',')[-1]), ("value == ''", lambda v: v == ''), ("int(len(value) / 2) or ''", lambda v: len(v) // 2 or ''),
                 ("'|'.join(sorted(set(value)))", lambda v: '|'.join(sorted(set(v)))), ("(lambda x: x + x)(value)", lambda v: v + v)):
        for target, after in ((None, False), ('t', False), ('t', True)):
            transform(cx, header, rows, header[unit], e, f, target, after, evaluate=True)


@check.family('awkward files', lambda t: [0], 'one column, repeated names, blank lines, other line ends, no final line end, quoted names, through files')
def awkward(unit, cx):
    for runner in (run, run_files):
        split(cx, ['a'], [['x|y'], [''], ['z']], 'a', runner=runner)
        split(cx, ['a'], [['x|y'], [''], ['z']], 'a', target='b', runner=runner)
        split(cx, ['a', 'a'], [['x|y', 'u|v']], 'a', runner=runner)
        split(cx, ['n,"a\n', 'é'], [['x|y', 'u|v']], 'n,"a\n', runner=runner)
        split(cx, ['n', 'é'], [['x|y', 'ù|v']], 'é', sep='ù', rename='ï', runner=runner)
        transform(cx, ['a', 'a'], [['x', 'u']], 'a', 'upper', str.upper, runner=runner)
        transform(cx, ['a', 'é'], [['x', 'ù']], 'é', 'upper,lower', lambda v: v.upper().lower(), target='w', runner=runner)
        transform(cx, ['a'], [], 'a', 'upper', str.upper, target='w', runner=runner)
        for end in ('\n', '\r\n'):
            for lines in (['a,b', '1|2,x', '3,y'], ['a,b', '', '1|2,x', '', '', '3,y', ''], ['a,b', '1|2,x', '3,y', '', ''], ['', 'a,b', '1|2,x', '3,y']):
                for last in ('', end):
                    text = end.join(lines) + last
                    for target in (None, 't'):
                        split(cx, ['a', 'b'], [['1|2', 'x'], ['3', 'y']], 'a', target=target, text=text, runner=runner)
                        transform(cx, ['a', 'b'], [['1|2', 'x'], ['3', 'y']], 'b', 'upper', str.upper, target=target, text=text, runner=runner)
        for args in (['split', 'zz'], ['transform', 'zz', 'upper'], ['split', 'A', '-t', 't']):
            cx.at(args)
            seen = []
            try:
                seen.append(runner(args, 'a,b\r\n1|2,x\r\n'))
            except (Exception, SystemExit):
                pass
            cx.expect(not ''.join(seen), lambda: 'fog %s of columns a, b wrote %r' % (' '.join(args), seen))


def spellings(pos, options):
    """Every order of the options and every way to spell each, before, between and after the positional arguments."""
    ways = []
    for short, long, value in options:
        if value is None:
            ways.append([[long]] + ([[short]] if short else []))
        else:
            ways.append([[short, value], [long, value], [long + '=' + value], [short + value]])
    for combo in itertools.product(*ways):
        for order in set(itertools.permutations(range(len(combo)))):
            opts = [combo[i] for i in order]
            flat = [x for o in opts for x in o]
            yield pos[:1] + flat + pos[1:]
            yield pos + flat
            if opts:
                yield pos[:1] + opts[0] + pos[1:] + [x for o in opts[1:] for x in o]


@check.family('spellings', lambda t: ['split', 'transform', 'eval'],
              'every subset of the options, each spelled in every way (-x v, -xv, --long v, --long=v), in every order, before and after the names')
def spelt(unit, cx):
    header, rows = ['c0', 'c1', 'c2'], [['a;b', 'C;d', 'e'], ['', ';', 'F']]
    text = to_csv([header] + rows)
    options = {'split': [('-s', '--separator', ';'), ('-t', '--target-column', 'tt'), ('-r', '--rename-column', 'rr')],
               'transform': [('-t', '--target-column', 'tt'), ('-a', '--after', None)],
               'eval': [('-t', '--target-column', 'tt'), ('-a', '--after', None)]}[unit]
    for k in range(len(options) + 1):
        for chosen in itertools.combinations(options, k):
            has = {o[1]: o[2] for o in chosen}
            target = has.get('--target-column')
            if unit == 'split':
                pos = ['split', 'c1']
                sep = has.get('--separator', '|')
                head = header + ([target] if target else [])
                if '--rename-column' in has:
                    head[1] = 'rr'
                want = [head] + [r + [v] if target else [r[0], v, r[2]] for r in rows for v in r[1].split(sep)]
            else:
                pos = ['transform', 'c1', 'upper'] if unit == 'transform' else ['transform', 'c1', 'value.upper()']
                if unit == 'eval':
                    chosen = chosen + ((None, '--eval', None),)
                want = []
                for i, r in enumerate([header] + rows):
                    v = target if i == 0 else r[1].upper()
                    want.append((r[:1] + [v if i else r[1]] + r[2:]) if target is None else (r[:2] + [v] + r[2:] if '--after' in has else r + [v]))
            for args in spellings(pos, chosen):
                cx.at((args, text))
                cx.same(from_csv(run(args, text)), want, 'fog %s of %s' % (' '.join(args), show(text)))


@check.family('large tables', lambda t: [1, 10, 100, 1000, 3000 if t == 'quick' else 70000], 'up to 3000 (thorough 70000) rows, up to 40 columns, cells of up to 300 values, values of up to 9000 letters')
def tables(n, cx):
    header = ['h%d' % i for i in range(4)]
    rows = [['u%d' % i, '|'.join('v%d.%d' % (i, j) for j in range(i % 5 + 1)), 'W %d' % i, ''] for i in range(n)]
    for target in (None, 't'):
        split(cx, header, rows, 'h1', target=target)
        transform(cx, header, rows, 'h2', 'lower,strip', lambda v: v.lower().strip(), target=target)
        transform(cx, header, rows, 'h1', 'len', len, target=target, after=True)
        transform(cx, header, rows, 'h1', 'value[::-1]', lambda v: v[::-1], target=target, evaluate=True)
    if n <= 1000:
        wide = ['h%d' % i for i in range(40)]
        cells = [['r%d|%d' % (k, i) for i in range(40)] for k in range(3)]
        for p in (0, 1, 9, 10, 20, 38, 39):
            split(cx, wide, cells, wide[p])
            split(cx, wide, cells, wide[p], target='t', rename='r')
            transform(cx, wide, cells, wide[p], 'upper', str.upper)
            transform(cx, wide, cells, wide[p], 'upper', str.upper, target='t', after=True)
            transform(cx, wide, cells, wide[p], 'upper', str.upper, target='t')
        k = min(n, 300)
        split(cx, header, [['a', '|'.join('x%d' % i for i in range(k)), 'b', 'c']] * 2, 'h1')
        split(cx, header, [['a', '|' * k, 'b', 'c']] * 2, 'h1', target='t')
        long = 'Éa b' * (9 * k // 4 + 1)
        split(cx, header, [['a', long, 'b', 'c']], 'h1', sep='É')
        for ops, f in (('upper', str.upper), ('lower,unidecode', lambda v: unidecode(v.lower())), ('len', len), ('squeeze', OPS['squeeze']), ('fingerprint', OPS['fingerprint'])):
            transform(cx, header, [['a', long, 'b', 'c']], 'h1', ops, f)


@check.family('every character', lambda t: list(range(0, 0x10000 if t == 'quick' else 0x110000, 0x400)),
              'every character of plane 0 (thorough: all), with neighbours, in the cells split or transformed with each operation, and in the others')
def characters(unit, cx):
    header = ['c0', 'c1', 'c2']
    chars = [chr(c) for c in range(unit, unit + 0x400) if c != 13 and not 0xd800 <= c < 0xe000]
    rows = [['u' + c, 'a%s|%sB%s' % (c, c, c), c] for c in chars]
    if not rows:
        return
    split(cx, header, rows, 'c1')
    split(cx, header, rows, 'c1', target='t')
    for o, f in OPS.items():
        transform(cx, header, rows, 'c1', o, f)
        transform(cx, header, rows, 'c2', o, f, target='t')
    transform(cx, header, rows, 'c1', 'value + value', lambda v: v + v, target='t', after=True, evaluate=True)


@check.family('characters next to one another', lambda t: [0],
              'every cell of up to 3 out of backslash, quotes, comma, semicolon, tab, space, line feed and letters whose cases differ in length, in every position, as separators too')
def neighbours(unit, cx):
    header = ['c0', 'c1', 'c2']
    marks = ['\\', '"', "'", ',', ';', '\t', ' ', '\n', '\u00df', '\u03a3', '\u0130', 'a']
    cells = [''.join(c) for k in range(4) for c in itertools.product(marks, repeat=k)]
    rows = [[a, b, c] for a, b, c in zip(cells, cells[1:] + cells[:1], cells[7:] + cells[:7])]
    for col in header:
        for o, f in OPS.items():
            transform(cx, header, rows, col, o, f)
        transform(cx, header, rows, col, 'strip', str.strip, target='t', after=True)
        for sep in marks + ['\\n', '""', '.', '[a]', '\\s', 'a*']:
            split(cx, header, rows, col, sep=sep)
            split(cx, header, rows, col, sep=sep, target='t')


@check.family('rows longer than the header', lambda t: [0], 'rows with one or two cells more than the header, which are kept')
def longer(unit, cx):
    header = ['c0', 'c1']
    for rows in ([['a|b', 'C', 'x']], [['a|b', 'C'], ['d', 'e|f', 'G', 'h']], [['', '', ''], ['a|b', 'c|D', '|']]):
        for col in header:
            for target in (None, 't'):
                split(cx, header, rows, col, target=target)
                split(cx, header, rows, col, target=target, rename='r')
                transform(cx, header, rows, col, 'upper', str.upper, target=target)
                transform(cx, header, rows, col, 'upper', str.upper, target=target, after=True)
