import itertools

from vp import seams
from vp.core import Check
seams.install(pool=True, rng=True)
from checks.c12_common import metrics
from fog.clustering import vp_tree

check = Check(
    'C13', 'exhaustive enumeration of finite metric spaces and of every random vantage point choice on the real '
    'clusterer against exhaustive range queries',
    'Every metric with distances 1..3 on up to 4 points (1..2 on 5), every order, all vantage point draws; larger '
    'line and grid spaces with draws up to a number of departures.',
    ['the distance is a true metric'])

R = seams.RCONTROL
INF = float('inf')


def reference(data, dist, radius, mn, mx):
    visited, out = set(), []
    for x in data:
        if x in visited:
            continue
        ball = [y for y in data if dist(x, y) <= radius]
        if not mn <= len(ball) <= mx:
            continue
        visited.update(ball)
        out.append(tuple(sorted(ball)))
    return sorted(out)


def every(cx, what, data, dist, radius, mn, mx, depth=None, bound=None, container=list):
    want = reference(data, dist, radius, mn, mx)

    def one(ch):
        R.start(ch)
        cx.at((what, data, 'radius', radius, 'sizes', mn, mx, 'draws', list(ch.prefix)))
        try:
            got = sorted(tuple(sorted(c)) for c in vp_tree(container(data), distance=dist, radius=radius, min_size=mn, max_size=mx))
        finally:
            R.stop()
        cx.checked += 1
        if got != want:
            cx.fail('vp_tree(%s, %s, radius=%s, min_size=%s, max_size=%s), draws %s: %s, expected %s'
                    % (data, what, radius, mn, mx, [c for c, _ in ch.trace], got, want))
        cx.outcomes[tuple(got)] = 1
    if bound is None:
        seams.first_choices(one, depth)
    else:
        seams.deviations(one, bound, seams.fair)


SIZES = [(2, INF), (3, INF), (2, 2), (2, 3)]


@check.family('all metrics, all vantage points', lambda t: [(n, v, i, 48) for n, v in ((2, (1, 2)), (3, (1, 2, 3)), (4, (1, 2, 3))) for i in range(48)],
              'every metric on 2-4 points with distances in 1..3, radius 0..3, all size bounds, every vantage point')
def small(unit, cx):
    n, values, r, mod = unit
    for D in list(metrics(n, values))[r::mod]:
        for radius in (0, 1, 2, 3):
            for mn, mx in SIZES if n < 4 or cx.tier != 'quick' else SIZES[:3]:
                every(cx, 'metric %s' % (D,), tuple(range(n)), lambda a, b: D[a][b], radius, mn, mx, depth=4 if cx.tier == 'quick' else 8)


@check.family('all metrics on 5 points', lambda t: list(range(64)),
              'every metric on 5 points with distances in 1..2, radius 1, all size bounds, at most 1 departure (thorough 2)')
def five(unit, cx):
    for D in list(metrics(5, (1, 2)))[unit::64]:
        for mn, mx in SIZES:
            every(cx, 'metric %s' % (D,), tuple(range(5)), lambda a, b: D[a][b], 1, mn, mx, bound=1 if cx.tier == 'quick' else 2)


def spaces():
    line = lambda a, b: abs(a - b)
    grid = lambda a, b: abs(a[0] - b[0]) + abs(a[1] - b[1])
    for n in (6, 9, 10, 11, 12, 20, 21, 30, 64, 129, 300, 1001):
        yield 'line', tuple(range(n)), line
        yield 'reversed line', tuple(range(n))[::-1], line
        yield 'gaps', tuple(x * x // 3 + x for x in range(n)), line
        yield 'shuffled', tuple((7 * x) % n if n % 7 else (5 * x) % n for x in range(n)), line
    yield 'grid', tuple((x, y) for x in range(4) for y in range(4)), grid
    yield 'grid2', tuple((x, 2 * y) for x in range(5) for y in range(3)), grid
    yield 'equidistant', tuple(range(12)), lambda a, b: int(a != b)
    yield 'repeated', (0, 5, 0, 1, 5, 9, 9, 9), line
    yield 'floats', (0.0, 0.5, 0.75, 1.5, 2.0, 2.25, 4.0), line


@check.family('larger spaces', lambda t: list(range(len(list(spaces())))),
              'lines, grids, equidistant points and repeated items, 6-1001 items, radius 0-4, at most 1 departure from the default draws')
def larger(unit, cx):
    name, pts, dist = list(spaces())[unit]
    for radius in (0, 0.5, 1, 2, 3, 4) if len(pts) <= 30 else (0, 1, 3):
        for mn, mx in SIZES + [(4, 6)] if len(pts) <= 30 else [(2, INF), (2, 3)][:1 if len(pts) > 300 else 2]:
            every(cx, name, pts, dist, radius, mn, mx, bound=1 if len(pts) <= 12 and (mn, mx) == (2, INF) else 0)


@check.family('degenerate inputs and containers', lambda t: [0], '0, 1 and 2 items; list, tuple, generator, set')
def degenerate(unit, cx):
    line = lambda a, b: abs(a - b)
    for data in ((), (3,), (3, 4), (3, 9), (3, 3)):
        for container in (list, tuple, iter, lambda d: (x for x in d), lambda d: dict.fromkeys(d)):
            if container((1,)).__class__ is dict and len(set(data)) < len(data):
                continue
            for mn, mx in ((2, INF), (1, INF), (1, 1), (3, INF)):
                every(cx, 'line', data, line, 1, mn, mx, depth=3, container=container)


@check.family('items without order, fractional distances', lambda t: [(u, i) for u in (1, 0.25, 1 / 3) for i in range(8)],
              'every sequence of 3 and set of 4 and 5 of 7 points of the plane (complex numbers, which cannot be compared), in units, quarters and thirds, radius 0 to 3 '
              'units and in between, at most 1 departure')
def plane(unit, cx):
    u, r = unit
    points = [0j, 1 + 0j, 1j, 1 + 1j, 2 + 0j, 2.5j, -1 - 1j]
    spaces = list(itertools.permutations(points, 3)) + list(itertools.combinations(points, 4)) + list(itertools.combinations(points, 5))
    dist = lambda a, b: abs(a - b) * u
    for ps in spaces[r::8]:
        for radius in (0, 1, 1.25, 1.45, 2, 3):
            rad = radius * u
            for mn, mx in ((2, INF), (3, 3)):
                visited, want = set(), []
                for x in ps:
                    if x not in visited:
                        ball = [y for y in ps if dist(x, y) <= rad]
                        if mn <= len(ball) <= mx:
                            visited.update(ball)
                            want.append(frozenset(ball))
                want = set(want)

                def one(ch):
                    R.start(ch)
                    cx.at((ps, u, rad, mn, mx, 'draws', list(ch.prefix)))
                    try:
                        got = [list(c) for c in vp_tree(list(ps), distance=dist, radius=rad, min_size=mn, max_size=mx)]
                    finally:
                        R.stop()
                    cx.checked += 1
                    if set(map(frozenset, got)) != want or sum(map(len, got)) != sum(map(len, want)):
                        cx.fail('vp_tree(%s, distances times %r, radius=%s, sizes %s %s): %s, expected %s' % (ps, u, rad, mn, mx, got, want))
                    cx.outcomes[len(got)] = 1
                seams.deviations(one, 1, seams.fair)
