"""C11: dark noise and dark current"""
import itertools
import math
import numpy as np
from ..core import Space
from .. import ref
from emva1288.process import Results1288

ID = 'C11'
RULE = ('every dark series over small alphabets of dark means, dark '
        'variances and exposure times (1 to 5 points, with repetitions); '
        'against exact least squares')
ASSUME = ['slope x largest time to 1e-6 of the largest dark value',
          'a slope within rounding of zero may be NaN or zero, unless the '
          'variances are all zero']
SP = {'L': 4, 'L_dark': 4, 'M': 4, 'N': 4, 'M_dark': 4, 'N_dark': 4}


def make(texp, ud, sd, K):
    n = len(texp)
    p = 100. * np.arange(1, n + 1)
    Y = 10. * np.arange(1, n + 1)
    ud, sd = np.array(ud, float), np.array(sd, float)
    return {'texp': np.array(texp, float), 'u_p': p, 'u_y': Y + ud,
            's2_y': K * Y + sd, 'u_ydark': ud, 's2_ydark': sd}


def check(ctx, texp, ud, sd, K, first=None):
    t = make(texp, ud, sd, K)
    r = Results1288({'temporal': t, 'spatial': dict(SP)},
                    index_u_ysat=len(texp) - 1)
    if first:
        getattr(r, first)
    w = ref.dark_current(t, K)
    many = len(set(texp)) >= 3
    tmax = max(texp)
    for k in ('u_I_mean_DN', 'u_I_mean', 'u_I_var_DN', 'u_I_var'):
        ctx.step()
        got = getattr(r, k)
        if not many:
            ctx.true(k + ' undefined', got != got, got)
            continue
        scale = max(map(abs, ud if 'mean' in k else sd)) or 1.
        scale *= 1e9 / tmax / {'u_I_mean_DN': 1, 'u_I_mean': K,
                               'u_I_var_DN': K, 'u_I_var': K * K}[k]
        if 'var' in k:
            s = ref.fit1(texp, sd)[0] * 1e9 / (
                K if k == 'u_I_var_DN' else K * K)
            if abs(s) < 1e-9 * scale and max(sd) > 0:
                ctx.true(k + ' zero or NaN', got != got or
                         abs(got) < 1e-6 * scale, got)
                continue
        spread = tmax / (max(texp) - min(texp))
        ctx.close(k, float(got), w[k], 1e-7, 1e-6 * scale * spread)
    if many:
        s2 = ref.fit1(texp, sd)[1]
    else:
        s2 = float(sd[0])
    ctx.step()
    spread = tmax / (max(texp) - min(texp)) if many else 1
    lo = max(.24, s2 - 1e-6 * max(sd) * spread)
    hi = max(.24, s2 + 1e-6 * max(sd) * spread)
    ctx.true('sigma_y_dark', math.sqrt(lo) * (1 - 1e-7) <= r.sigma_y_dark
             <= math.sqrt(hi) * (1 + 1e-7), r.sigma_y_dark, s2)
    if len(texp) > 1:
        ctx.close('K', float(r.K), K, 1e-9)
        ctx.close('sigma_d', r.sigma_d,
                  math.sqrt(float(r.sigma_y_dark) ** 2 - 1 / 12.) / K, 1e-7)
    ctx.state(texp, ud, sd, K)
    ctx.outcome({k: round(v, 6) for k, v in w.items()})


def run_case(case, ctx):
    check(ctx, *case)


NAMES = ('u_I_mean_DN', 'u_I_mean', 'u_I_var_DN', 'u_I_var', 'sigma_y_dark',
         'sigma_d', 'K', 'u_p_min')


def run_first(case, ctx):
    texp, ud, sd, K, first = case
    check(ctx, texp, ud, sd, K, first)


# very short, very long, unusual and close exposure times
SCALES = [tuple(s * x for x in te) for s in (1e-9, 1e-3, 1., 250., 1e12)
          for te in ((1, 2, 3), (1, 1.5, 1.75), (1, 1, 2), (1, 1.25, 8),
                     (10, 11, 12, 12))] + [
    (1., 1.5, 2.), (100., 100.25, 101.), (.1, .2, .1 * 3),
    (1e6, 1e6 + 10, 1e6 + 30), (1e6, 1e6 + 10, 1e6 + 10),
    (.5, 1e9, 2e9), (1e-3, 1., 1e3, 1e6)]


def spaces(tier):
    deep = tier == 'thorough'
    data = []
    for n in (1, 2, 3):
        for te in itertools.combinations_with_replacement(
                (1e6, 2e6, 5e8, 1e9), n):
            for ud in itertools.product((0., 16., 17.5), repeat=n):
                for sd in itertools.product((.1, .24, .3, 4.), repeat=n):
                    for K in (.5,) if n == 3 and not deep else (.1, .5, 4.):
                        data.append((te, ud, sd, K))
    for n in (4, 5, 6) if deep else (4,):
        for te in ([1e6 * (i + 1) for i in range(n)],
                   [1e9 * (i + 1) for i in range(n)],
                   [1e4 * 10 ** i for i in range(n)],
                   [1e6, 1e6] + [1e6 * (i + 2) for i in range(n - 2)],
                   [1e6] * (n - 1) + [2e6]):
            for ud in itertools.product((0., 3.),
                                        repeat=n):
                for sd in ([0.] * n, [.3] * n, [.3 + .1 * i for i in range(n)],
                           [5. - .5 * i for i in range(n)],
                           [.1 * (i % 2) for i in range(n)],
                           list(ud)):
                    for K in (.1, 2.):
                        data.append((te, ud, sd, K))
    for te in SCALES:
        for ud in itertools.product((16., 17.5), repeat=len(te)):
            for sd in itertools.product((.3, 4.), repeat=len(te)):
                data.append((te, ud, sd, .5))
    long_ = [([s * (i + 1) for i in range(n)],
              [16 + a * i for i in range(n)],
              [v0 + b * i + .01 * (i % 3) for i in range(n)], K)
             for n in (10, 50) + ((130, 260, 1030) if deep else ())
             for s in (1e4, 1e6, 1e8) for a in (0, .3, 10.)
             for v0 in (0., .2, 20.) for b in (0, .1, -.001)
             for K in (.01, 1., 30.)]
    if not deep:
        long_ += [([s * (i + 1) for i in range(n)],
                   [16 + .3 * i + .05 * (i % 5) for i in range(n)],
                   [.2 + b * i + .01 * (i % 3) for i in range(n)], .5)
                  for n in (130, 260) for s in (1e4, 1e8)
                  for b in (.1, -.001)]
    first = [(te, (1., 2., 3.), sd, .5, f)
             for te in ((1e6, 2e6, 3e6), (1e6, 1e6, 1e6), (1e6, 1e6, 3e6))
             for sd in ((.3, .4, .5), (.5, .4, .3), (.1, .1, .1))
             for f in NAMES]
    return [Space('small dark series', data, run_case,
                  bound='all series over the alphabets'),
            Space('long dark series', long_, run_case,
                  bound='10 to %d points, product of slopes and gains'
                  % (1030 if deep else 260)),
            Space('first access', first, run_first,
                  bound='every quantity first, 9 series')]
