"""C07: the linear fits"""
import itertools
import math
import numpy as np
from ..core import Space
from .. import ref
from emva1288.process import routines

ID = 'C07'
RULE = ('every data set over small abscissa and ordinate alphabets, spread '
        'over the physical scales, in every order of the points and every '
        'number type, after every other fit; against exact rational normal '
        'equations')
ASSUME = ['ordinates up to 1e5, at least two distinct abscissae (one non '
          'zero for the fit through the origin)',
          'rounding: 1e-6 of the largest ordinate within the range of the data '
          '(so that any correct solver passes)']

TYPES = {'list': list, 'tuple': tuple,
         'f8': lambda v: np.array(v, np.float64),
         'f4': lambda v: np.array(v, np.float32),
         'i8': lambda v: np.array(v).astype(np.int64),
         'i4': lambda v: np.array(v).astype(np.int32),
         'u2': lambda v: np.array(v).astype(np.uint16)}
TOL = 1e-6


def check(ctx, X, Y, tx='list', ty='list'):
    gx, gy = TYPES[tx](X), TYPES[ty](Y)
    kx, ky = list(map(float, gx)), list(map(float, gy))
    ymax = max(abs(v) for v in ky) or 1.0
    xmax = max(abs(v) for v in kx)
    n = len(kx)
    # through the origin
    ctx.step()
    r = routines.LinearB0(gx, gy)
    m = ref.fit0(kx, ky)
    ctx.true('LinearB0 returns (values, error)', len(r) == 2)
    ctx.eq('LinearB0 one value', len(r[0]), 1)
    ctx.close('LinearB0 slope', float(r[0][0]) * xmax, m * xmax, 0,
              TOL * ymax)
    sse = math.sqrt(math.fsum((m * a - b) ** 2 for a, b in zip(kx, ky))) / n
    ctx.close('LinearB0 error', float(r[1]), sse, 1e-5, TOL * ymax)
    if len(set(kx)) > 1:
        ctx.step()
        r = routines.LinearB(gx, gy)
        m, b = ref.fit1(kx, ky)
        ctx.true('LinearB returns (values, error)', len(r) == 2)
        ctx.eq('LinearB two values', len(r[0]), 2)
        spread = max(1.0, xmax / (max(kx) - min(kx)))
        ctx.close('LinearB slope', float(r[0][0]) * xmax, m * xmax, 0,
                  TOL * ymax * spread)
        ctx.close('LinearB offset', float(r[0][1]), b, 0,
                  TOL * ymax * spread)
        sse = math.sqrt(math.fsum((m * a + b - c) ** 2
                                  for a, c in zip(kx, ky))) / n
        ctx.close('LinearB error', float(r[1]), sse, 1e-5, TOL * ymax)
    ctx.true('inputs unmodified', list(map(float, gx)) == kx and
             list(map(float, gy)) == ky)
    ctx.state(kx, ky)
    ctx.outcome(round(m, 9))


def run_data(case, ctx):
    xs, scale, ys = case
    check(ctx, [x * scale for x in xs], list(ys))


def run_types(case, ctx):
    xs, ys, tx, ty = case
    check(ctx, xs, ys, tx, ty)


def run_order(case, ctx):
    """all orders of one data set give the same line"""
    xs, ys = case
    ymax = max(map(abs, ys)) or 1.0
    xmax = max(map(abs, xs))
    first = None
    for o in itertools.permutations(range(len(xs))):
        X, Y = [xs[i] for i in o], [ys[i] for i in o]
        check(ctx, X, Y)
        a = routines.LinearB0(X, Y)[0][0] * xmax
        b = routines.LinearB(X, Y)[0]
        got = np.array([a, b[0] * xmax, b[1]])
        if first is None:
            first = got
        ctx.close('same for every order', got, first, 0, 2 * TOL * ymax)


SETS = [([1, 2, 3], [2, 4, 6]), ([1e6, 2e6, 4e6], [10, 0, 30]),
        ([0, 1, 5, 7], [1, 1, 1, 1]), ([1e9, 2e9], [5, 1])]


def run_history(case, ctx):
    """a fit after any other fits"""
    for i in case:
        check(ctx, *SETS[i])
    ctx.state(case)


def run_long(case, ctx):
    n, scale, kind = case
    xs = [scale * (k + 1) for k in range(n)]
    ys = [{'line': 3.0 * k + 7, 'alt': float((-1) ** k * 100),
           'knee': min(k, n // 2) * 50.0, 'flat': 12.25,
           'dip': 100.0 if k != n // 3 else 0.0,
           'big': 65535.0 * (k % 2)}[kind] for k in range(n)]
    check(ctx, xs, ys)
    check(ctx, np.array(xs), np.array(ys), 'f8', 'f8')


def spaces(tier):
    deep = tier == 'thorough'
    data = []
    scales = (1, 1e3, 1e6, 1e9) + ((1e-3, 37.5, 1e10) if deep else ())
    for n, xa, ya in ((2, (0, 1, 2, 7), (0, 1, 100, 65535)),
                      (3, (0, 1, 2, 5), (0, .25, 100, -3)),
                      (4, (1, 2, 3, 4), (0, 1, 4095))) + \
            (((4, (0, 1, 2, 10), (0, .25, 100, 65535)),
              (5, (1, 2, 3, 4, 5), (0, 1, 4095))) if deep else ()):
        for xs in itertools.combinations_with_replacement(xa, n):
            if not any(xs):
                continue
            if n > 3 and len(set(xs)) < (n if not deep else 2):
                continue
            for ys in itertools.product(ya, repeat=n):
                for s in scales:
                    data.append((xs, s, ys))
    types = [(xs, ys, tx, ty)
             for xs, ys in (((1, 2, 4), (3, 7, 250)), ((0, 100), (65535, 0)),
                            ((1, 2, 3, 40000), (0, 0, 9, 60000)))
             for tx in sorted(TYPES) for ty in sorted(TYPES)]
    orders = [((1, 2, 3), (5, 9, 2)), ((0, 1e6, 3e6, 9e6), (1, 1, 50, 4000)),
              ((1e9, 2e9, 3e9, 4e9), (.3, .3, .25, .8))]
    if deep:
        orders.append(((1, 2, 3, 4, 9), (5, 0, 5, 0, 100)))
    hist = list(itertools.product(range(len(SETS)), repeat=3 if deep else 2))
    longs = [(n, s, k) for n in (2, 6, 20, 50, 130, 260) + (
        (1030, 4100) if deep else ())
             for s in scales
             for k in ('line', 'alt', 'knee', 'flat', 'dip', 'big')]
    return [Space('all small data sets', data, run_data,
                  bound='2..%d points, scales %s' % (5 if deep else 4,
                                                     scales)),
            Space('number types', types, run_types,
                  bound='all pairs of 7 types'),
            Space('point orders', orders, run_order,
                  bound='all permutations'),
            Space('histories', hist, run_history,
                  bound='all sequences of fits'),
            Space('long data', longs, run_long,
                  bound='6 shapes x lengths up to 4100 x scales')]
