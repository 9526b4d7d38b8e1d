"""C09: sensitivity, saturation, SNR and dynamic range"""
import itertools
import math
import numpy as np
from ..core import Space
from ..util import deviations
from .. import ref
from emva1288.process import Results1288, Data1288

ID = 'C09'
RULE = ('every combination of system gain, quantum efficiency, number of '
        'points, saturation position (detected or forced), dark noise, '
        'exposure structure, pixel area, point perturbation and number type; '
        'and every small photon transfer data set; each figure against an '
        'independent evaluation of the equations')
ASSUME = ['curves have a positive slope at saturation; figures that need the '
          'root or logarithm of a negative number are only required to be '
          'NaN', 'relative tolerance 1e-6']
SP = {'L': 4, 'L_dark': 4, 'M': 4, 'N': 4, 'M_dark': 4, 'N_dark': 4}

METHODS = ('inverse_K', 'SNR_max_dB', 'SNR_max_bit', 'inverse_SNR_max',
           'DR_dB')


def verify(ctx, r, t, sat, area, tol=1e-6):
    want = ref.sensitivity(t, sat, area)
    for k in sorted(want):
        ctx.step()
        v = getattr(r, k)
        v = v() if k in METHODS else v
        w = want[k]
        if w is None:
            ctx.true(k + ' is None', v is None, v)
            continue
        v = float(v)
        if math.isinf(v) or (isinstance(w, float) and math.isinf(w)):
            ctx.true(k, v == w, v, w)
            continue
        ctx.close(k, v, float(w), tol)
    return want


def curve(c):
    n, sat = c['n'], c['sat']
    K, qe = c['K'], c['qe']
    p = c['p0'] * np.arange(1, n + 1, dtype=float)
    ysat = K * qe * p[sat]
    Y = np.minimum(K * qe * p, ysat * 1.02)
    V = K * Y
    V[sat + 1:] = V[sat] * np.linspace(.5, .0, n - sat - 1) \
        if sat + 1 < n else V[sat + 1:]
    if c['bend']:
        # deviations of single points from the ideal curve
        k = c['bend'][0] % n
        Y[k] *= c['bend'][1]
        V[(k + 1) % n] *= c['bend'][1]
    if c['texp'] == 'one':
        texp = np.full(n, 5e6)
        ud = np.full(n, c['dark'])
        sd = np.full(n, c['noise'])
    else:
        texp = 1e6 * np.arange(1, n + 1) * (1e2 if c['texp'] == 'slow'
                                            else 1)
        if c['texp'] == 'two':
            texp = np.where(np.arange(n) < n // 2, 1e6, 2e6)
        ud = c['dark'] + texp * 1e-8
        sd = c['noise'] + texp * 1e-8 * K * (0 if c['noise'] < .2 else 1)
    t = {'texp': texp, 'u_p': p, 'u_y': Y + ud, 'u_ydark': ud,
         's2_y': V + sd, 's2_ydark': sd}
    if c['dtype'] != 'float64':
        for k in t:
            t[k] = t[k].astype(c['dtype'])
    return t


DEFAULT = {'K': .5, 'qe': .5, 'n': 8, 'sat': 6, 'noise': 4., 'dark': 16.,
           'texp': 'many', 'area': None, 'bend': None, 'forced': None,
           'p0': 1000., 'dtype': 'float64'}
AXES = {'K': (1e-4, .01, .5, 1., 20., 1e4), 'qe': (1e-4, .01, .5, 1.), 'n': (2, 3, 8, 50),
        'sat': (0, 1, 3, 6, 7), 'noise': (0., .1, .24, .25, 4., 400.),
        'dark': (0., 16., 1000.), 'texp': ('one', 'two', 'many', 'slow'),
        'area': (None, 0, 1, .25, 25., 12.1), 'forced': (None, 'sat', 2),
        'bend': (None, (0, .9), (2, 1.1), (5, .97)),
        'p0': (10., 1000., 1e6), 'dtype': ('float64', 'float32', 'int64')}


def run_config(case, ctx):
    c = dict(case)
    c['sat'] = min(c['sat'], c['n'] - 1)
    t = curve(c)
    forced = c['forced']
    sat = ref.saturation_index(list(t['s2_y']))
    if forced is not None:
        forced = sat = min(c['n'] - 1, c['sat'] if forced == 'sat'
                           else forced)
    Y = np.asarray(t['u_y'], float) - np.asarray(t['u_ydark'], float)
    smax = ref.ranges(t, sat)[0]
    if smax is None or not np.any(Y[:smax + 1]):
        return                     # no sensitivity range
    K = ref.fit0(Y[:smax + 1], (t['s2_y'] - t['s2_ydark'])[:smax + 1])
    R = ref.fit0(t['u_p'][:smax + 1], Y[:smax + 1])
    if not K or not R:
        return
    keep = {k: v.copy() for k, v in t.items()}
    r = Results1288({'temporal': t, 'spatial': dict(SP)},
                    pixel_area=c['area'], index_u_ysat=forced)
    tol = 1e-6 if c['dtype'] != 'float32' else 1e-4
    w = verify(ctx, r, t, sat, c['area'], tol)
    ctx.close('s2q', r.s2q, 1 / 12., 1e-12)
    # relations between the figures themselves
    ctx.close('electrons = QE photons (sat)', r.u_e_sat,
              r.QE * r.u_p_sat / 100, 1e-9)
    ctx.close('electrons = QE photons (min)', r.u_e_min,
              r.QE * r.u_p_min / 100, 1e-9)
    ctx.eq('data unmodified', t, keep)
    ctx.state(case)
    ctx.outcome([None if v is None else round(float(v), 6)
                 for k, v in sorted(w.items())])


def run_small(case, ctx):
    """all small photon transfer data"""
    Y, V, forced, noise = case
    n = len(Y)
    d = np.full(n, 7.)
    t = {'texp': np.full(n, 1e6), 'u_p': 10. * np.arange(1, n + 1),
         'u_y': np.array(Y, float) + d, 'u_ydark': d,
         's2_y': np.array(V, float) + noise,
         's2_ydark': np.full(n, float(noise))}
    sat = forced if forced is not None else \
        ref.saturation_index(list(t['s2_y']))
    smax = ref.ranges(t, sat)[0]
    if smax is None:
        return
    K = ref.fit0(np.array(Y[:smax + 1]) + 0., V[:smax + 1]) \
        if any(Y[:smax + 1]) else 0
    if not K:
        return
    r = Results1288({'temporal': t, 'spatial': dict(SP)}, pixel_area=2.,
                    index_u_ysat=forced)
    verify(ctx, r, t, sat, 2.)
    ctx.state(case)


def series(mean, var, n=64):
    """loader totals of an image pair with given moments"""
    return {'sum': int(2 * n * mean), 'pvar': int(4 * n * var),
            'dmean': 0.0}


def run_order(case, ctx):
    """the same measurement given in another order gives the same figures"""
    order, single = case
    n = len(order)
    tex = [5e6] * n if single else [1e6 * (k + 1) for k in range(n)]
    one = {k: np.ones((8, 8), np.int64) * 4 for k in ('sum', 'pvar')}
    sp = {1e6: {0.0: dict(one, L=2, dmean=0.),
                9.0: dict(one, L=2, dmean=0.)}}
    out = []
    for o in (list(range(n)), order):
        temp = {}
        for k in o:
            d = temp.setdefault(tex[k], {})
            b = (1000. * (k + 1), series(16 + 250 * (k + 1), 2 + 125 *
                                         (k + 1 if k < n - 1 else 1)))
            q = (0.0, series(16, 2 + (0 if single else k)))
            for a, v in ((b, q) if k % 2 else (q, b)):
                d[a] = v
        dat = Data1288({'width': 8, 'height': 8, 'temporal': temp,
                        'spatial': sp})
        r = Results1288(dat.data, pixel_area=3.)
        sat = ref.saturation_index(list(dat.data['temporal']['s2_y']))
        w = verify(ctx, r, dat.data['temporal'], sat, 3.)
        out.append({k: float(getattr(r, k)() if k in METHODS
                             else getattr(r, k)) for k in w})
    ctx.close('independent of the order', out[1], out[0], 1e-9)
    ctx.state(case)
    ctx.outcome(out[0])


def spaces(tier):
    deep = tier == 'thorough'
    cfg = list(deviations(DEFAULT, AXES, 3 if deep else 2))
    cfg += [dict(DEFAULT, n=n, sat=s, texp=t, bend=b)
            for n in (130, 260, 515) + ((1030, 4100) if deep else ())
            for s in (6, n // 2, n - 1) for t in ('one', 'many')
            for b in (None, (n // 4, .9), (5, 1.1))]
    small = []
    for n in (2, 3) if not deep else (2, 3, 4):
        ys = (1, 60, 70, 100, 101) if n < 4 else (1, 60, 70, 100, 101)
        vs = (1, 5, 30, 50) if n < 4 else (1, 30, 50)
        for Y in itertools.combinations(ys, n):
            for V in itertools.product(vs, repeat=n):
                for f in [None] + list(range(n)):
                    for noise in (0, .25, 3):
                        small.append((Y, V, f, noise))
    orders = [(list(o), s) for o in itertools.permutations(range(5))
              for s in (0, 1)]
    return [Space('configurations', cfg, run_config,
                  bound='up to %d deviations from a default, 12 axes; up to 4100 points'
                  % (3 if deep else 2)),
            Space('small transfer curves', small, run_small,
                  bound='all data over the alphabets'),
            Space('insertion orders', orders, run_order,
                  bound='all permutations of 5 points')]
