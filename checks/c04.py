import ctypes
import sys

from vp.core import Check
from checks.lev_common import MAPS, batch, canonical_words, lev, long_pairs, pairs_from, render, shapes
import cfog.metrics.levenshtein as ext
from cfog.metrics import (levenshtein_distance, limited_levenshtein_distance, levenshtein_distance_lte1,
                          damerau_levenshtein_distance_lte1)

check = Check(
    'C04', 'exhaustive enumeration of inputs and of every allocation failure on an AddressSanitizer build with '
    'counted, refusable and poisoned heap requests',
    'AddressSanitizer watches every access of the extension; each heap block it requests is counted. Covers the '
    'enumerated inputs; undefined behaviour that neither the sanitizer nor the fill patterns can see is not covered.',
    ['heap requests of the extension go through malloc/calloc/realloc/free or the PyMem/PyObject families'])

lib = ctypes.CDLL(ext.__file__)
lib.vp_live.restype = ctypes.c_long
lib.vp_requests.restype = ctypes.c_long
lib.vp_reset.argtypes = [ctypes.c_long, ctypes.c_int]


def calls(a, b, limits):
    yield 'levenshtein_distance', lambda: levenshtein_distance(a, b)
    yield 'levenshtein_distance_lte1', lambda: levenshtein_distance_lte1(a, b)
    yield 'damerau_levenshtein_distance_lte1', lambda: damerau_levenshtein_distance_lte1(a, b)
    for m in limits:
        yield 'limited_levenshtein_distance %d' % m, lambda: limited_levenshtein_distance(m, a, b)


def run(cx, a, b, limits):
    ra, rb = sys.getrefcount(a), sys.getrefcount(b)
    for name, f in calls(a, b, limits):
        cx.at((name, a[:60], b[:60], len(a), len(b)), 2)
        out = []
        for fill in (0x00, 0xFF):
            before = lib.vp_live()
            lib.vp_reset(-1, fill)
            out.append(f())
            after = lib.vp_live()
            cx.checked += 1
            if after != before:
                cx.fail('%s(%a, %a) left %d heap blocks allocated' % (name, a[:60], b[:60], after - before))
        cx.checked += 1
        if out[0] != out[1]:
            cx.fail('%s(%a, %a) depends on uninitialised memory: %r with zeroed, %r with 0xff blocks'
                    % (name, a[:60], b[:60], out[0], out[1]))
        cx.outcomes[(name[:20], out[0])] = 1
    f = None
    cx.current = (len(a), len(b))
    cx.expect((sys.getrefcount(a), sys.getrefcount(b)) == (ra, rb), 'reference count of an argument changed')


def refuse(cx, a, b, limits):
    for name, f in calls(a, b, limits):
        cx.at((name, a[:60], b[:60], 'counting requests'))
        lib.vp_reset(-1, 0xA5)
        want = f()
        n = lib.vp_requests()
        cx.checked += 1
        for k in range(n):
            # twice: the first traceback may legitimately fill a cache of the interpreter
            for again in range(2):
                cx.at((name, a[:60], b[:60], 'heap request %d refused' % k))
                before = lib.vp_live()
                lib.vp_reset(k, 0xA5)
                try:
                    got = f()
                except MemoryError:
                    got = MemoryError
                lib.vp_reset(-1, 0xA5)
                after = lib.vp_live()
                cx.expect(got is MemoryError or got == want,
                          '%s(%a, %a) with heap request %d refused returned %r instead of %r or MemoryError'
                          % (name, a[:60], b[:60], k, got, want))
                cx.outcomes[(k, got is MemoryError)] = 1
                if again:
                    cx.expect(after <= before, '%s(%a, %a) with heap request %d refused leaked %d blocks'
                              % (name, a[:60], b[:60], k, after - before))


@check.family('all small pairs', lambda t: batch(shapes(t, [(2, 6, 6), (3, 4, 5)] if t == 'quick' else [(2, 8, 8), (3, 6, 6), (4, 5, 5)]), 4),
              'all pairs over 2 letters up to 6, 3 letters up to 4/5 (thorough: larger); bounds 0..max length')
def small(unit, cx):
    m = MAPS['ascii']
    for k, a, lb in unit:
        sa = render(a, m)
        for b, d in pairs_from(a, k, lb):
            run(cx, sa, render(b, m), range(max(len(a), len(b)) + 1))


@check.family('all small pairs, every character width', lambda t: batch([(name,) + u for name in MAPS for u in shapes(t, [(2, 3, 4)] if t == 'quick' else [(2, 5, 5), (3, 4, 4)])], 12),
              'all pairs over 2 letters up to 3/4 (thorough: larger) in every rendering')
def widths(unit, cx):
    for name, k, a, lb in unit:
        m = MAPS[name]
        sa = render(a, m)
        for b, d in pairs_from(a, k, lb):
            run(cx, sa, render(b, m), range(max(len(a), len(b)) + 1))


@check.family('long pairs', lambda t: batch(long_pairs(t), 6), 'lengths straddling 16 ... 512 and 65536')
def long_(unit, cx):
    for name, a, b, d in unit:
        d = lev(a, b) if d is None else d
        run(cx, a, b, sorted({0, 1, max(d - 1, 0), d, d + 1, len(b), len(b) + 1}))


@check.family('every refused heap request', lambda t: batch(shapes(t, [(2, 4, 5), (3, 3, 4)] if t == 'quick' else [(2, 6, 6), (3, 5, 5)]), 4),
              'each heap request of each call fails once, on all pairs over 2 letters up to 4/5 and 3 up to 3/4')
def faults(unit, cx):
    m = MAPS['ascii']
    for k, a, lb in unit:
        sa = render(a, m)
        for b, d in pairs_from(a, k, lb):
            refuse(cx, sa, render(b, m), range(max(len(a), len(b)) + 1))
