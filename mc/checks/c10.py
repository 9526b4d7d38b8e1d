"""C10: linearity"""
import itertools
import numpy as np
from ..core import Space
from .. import ref
from emva1288.process import Results1288

ID = 'C10'
RULE = ('every response curve obtained from a straight line by perturbing '
        'every subset of up to 2 (3) points with every factor, for every '
        'number of points, saturation position, offset and dark structure; '
        'against exact weighted least squares')
ASSUME = ['at least two points with distinct photon counts and non zero '
          'signal in the 5%-95% range', 'deviations agree to 1e-7 percent '
          'of the condition of the data']
SP = {'L': 4, 'L_dark': 4, 'M': 4, 'N': 4, 'M_dark': 4, 'N_dark': 4}


def temporal(X, Y, dark, texp='one'):
    n = len(X)
    Y = np.asarray(Y, float)
    d = np.full(n, float(dark))
    if texp == 'many':
        d = d + np.arange(n) * .5
    return {'texp': np.full(n, 1e6) if texp == 'one'
            else 1e6 * np.arange(1, n + 1), 'u_p': np.asarray(X, float),
            'u_y': Y + d, 'u_ydark': d, 's2_y': Y * .1 + 1,
            's2_ydark': np.full(n, .5)}


def check(ctx, X, Y, sat, dark, texp='one', exact=False):
    t = temporal(X, Y, dark, texp)
    _s, imin, imax = ref.ranges(t, sat)
    if imin is None or imax is None or imax - imin < 1:
        return None
    y = (t['u_y'] - t['u_ydark'])[imin:imax + 1]
    if np.any(y == 0) or len(set(t['u_p'][imin:imax + 1])) < 2:
        return None
    keep = {k: v.copy() for k, v in t.items()}
    r = Results1288({'temporal': t, 'spatial': dict(SP)}, index_u_ysat=sat)
    ctx.step()
    lin = r.linearity()
    w = ref.linearity(t, imin, imax)
    ctx.eq('keys', sorted(lin), sorted(w))
    ysc = float(np.max(np.abs(y)))
    xsc = float(np.max(np.abs(t['u_p'])))
    ctx.close('slope', float(lin['fit_slope']) * xsc,
              w['fit_slope'] * xsc, 1e-7, 1e-7 * ysc)
    ctx.close('offset', float(lin['fit_offset']), w['fit_offset'], 1e-7,
              1e-7 * ysc)
    fit = w['fit_slope'] * t['u_p'] + w['fit_offset']
    ok = np.abs(fit) > 1e-3 * ysc
    ctx.eq('one deviation per point', len(lin['relative_deviation']),
           len(X))
    ctx.close('deviation', np.asarray(lin['relative_deviation'])[ok],
              w['relative_deviation'][ok], 1e-5, 1e-4)
    if np.all(ok[imin:imax + 1]):
        dev = np.asarray(lin['relative_deviation'])[imin:imax + 1]
        ctx.close('minimum is the smallest deviation in the range',
                  float(lin['linearity_error_min']), float(dev.min()), 1e-9)
        ctx.close('maximum is the largest deviation in the range',
                  float(lin['linearity_error_max']), float(dev.max()), 1e-9)
        ctx.eq('LE_min', float(r.LE_min), float(lin['linearity_error_min']))
        ctx.eq('LE_max', float(r.LE_max), float(lin['linearity_error_max']))
        ctx.close('LE_min value', float(r.LE_min), w['linearity_error_min'],
                  1e-5, 1e-4)
        ctx.close('LE_max value', float(r.LE_max), w['linearity_error_max'],
                  1e-5, 1e-4)
    if exact:
        ctx.close('linear data deviate nowhere',
                  np.asarray(lin['relative_deviation'])[ok],
                  np.zeros(ok.sum()), 0, 1e-6)
    ctx.eq('data unmodified', t, keep)
    ctx.state(X, Y, sat, dark, texp)
    ctx.outcome(np.round(w['relative_deviation'], 6), imin, imax)
    return lin, imin, imax


def run_perturb(case, ctx):
    n, sat, scale, dark, texp, per = case
    X = [scale * (i + 1) for i in range(n)]
    Y = [1000. * (i + 1) / n for i in range(n)]
    for i, f in per:
        Y[i] *= f
    check(ctx, X, Y, sat, dark, texp,
          not per)


def run_outside(case, ctx):
    """points above 95% or below 5% never move the line"""
    n, sat, factors = case
    X = [50. * (i + 1) for i in range(n)]
    base = [10.] + [100. * i for i in range(1, n)]
    base = [b if i <= sat else base[sat] for i, b in enumerate(base)]
    r0 = check(ctx, X, base, sat, 4.)
    if r0 is None:
        return
    lin0, imin, imax = r0
    Y = list(base)
    for k, i in enumerate([i for i in range(n) if i < imin]):
        Y[i] = factors[0] * base[sat] * .05
    for i in range(imax + 1, n):
        if i != sat:
            Y[i] = base[sat] * (.95 + .01 + factors[1] * .04)
    r1 = check(ctx, X, Y, sat, 4.)
    ctx.eq('same range', r1[1:], (imin, imax))
    ctx.close('slope unchanged', float(r1[0]['fit_slope']),
              float(lin0['fit_slope']), 1e-9)
    ctx.close('offset unchanged', float(r1[0]['fit_offset']),
              float(lin0['fit_offset']), 1e-9, 1e-7)
    ctx.state(case)


def run_small(case, ctx):
    X, Y, sat = case
    check(ctx, X, Y, sat, 10.)


def run_exact(case, ctx):
    n, slope, off, scale, sat, dark = case
    X = [scale * (i + 1) for i in range(n)]
    Y = [off + slope * (i + 1) for i in range(n)]
    r = check(ctx, X, Y, sat, dark, exact=True)
    if r is not None:
        ctx.close('offset of the line', float(r[0]['fit_offset']), off, 1e-6,
                  1e-6 * max(Y))
        ctx.close('slope of the line', float(r[0]['fit_slope']),
                  slope / scale, 1e-6)


def spaces(tier):
    deep = tier == 'thorough'
    per = []
    fs = (.5, .99, 1.03, 1.5)
    for n, sats in ((4, (2, 3)), (6, (3, 4, 5)),
                    (10, (0, 1, 5, 8, 9) if not deep else range(10))):
        for sat in sats:
            for texp, dark in (('one', 0.), ('one', 16.), ('many', 16.)):
                for scale in (1., 100., 1e5):
                    for k in range(0, 4 if deep and n < 10 else 3):
                        if not deep and n == 10 and k == 2 and scale != 100:
                            continue
                        for pos in itertools.combinations(range(n), k):
                            for f in itertools.product(
                                    fs if k < 2 or deep else fs[1:3],
                                    repeat=k):
                                per.append((n, sat, scale, dark, texp,
                                            list(zip(pos, f))))
    long = [(n, sat, 1., 16., texp, [(p, f)])
            for n in (64, 129, 257, 513) + ((1025, 4097) if deep else ())
            for sat in (n - 1, n // 2) for texp in ('one', 'many')
            if n < 200 or deep or (sat == n - 1 and texp == 'one')
            for p in sorted({sat // 20 + 1, sat // 20 + 2, sat // 7,
                             sat // 2, sat // 2 + 1, sat * 9 // 10,
                             sat * 9 // 10 + 1})
            for f in (.97, 1.04)]
    out = [(n, sat, f) for n in (6, 9, 12) for sat in range(3, n)
           for f in itertools.product((0, .1, .5, .9), (0, .3, .9, 5, 100))]
    small = []
    for n in (3, 4) + ((5,) if deep else ()):
        vs = (2., 5., 50., 95., 100.)
        for Y in itertools.product(vs if n < 5 else vs[1:], repeat=n):
            for sat in range(n):
                if Y[sat] == 100.:
                    for X in ([1. * (i + 1) for i in range(n)],
                              [10. ** i for i in range(n)]):
                        small.append((X, Y, sat))
    exact = [(n, m, b, s, sat, d)
             for n in (3, 5, 20, 50) for m in (1., 20., 1000.)
             for b in (0., 5., -.5) for s in (1., 37., 1e6)
             for sat in {2, n // 2, n - 1} for d in (0., 64.)]
    return [Space('perturbed lines', per, run_perturb,
                  bound='all subsets of up to %d points x factors'
                  % (3 if deep else 2)),
            Space('long measurements', long, run_perturb,
                  bound='up to %d points, one point moved'
                  % (4097 if deep else 513)),
            Space('points outside', out, run_outside,
                  bound='every saturation index x factors below and above'),
            Space('small responses', small, run_small,
                  bound='all responses over threshold values'),
            Space('exact lines', exact, run_exact,
                  bound='product of lengths, slopes, offsets, scales')]
