"""C08: saturation point and fit ranges"""
import itertools
import numpy as np
from ..core import Space
from .. import ref
from emva1288.process import Results1288

ID = 'C08'
RULE = ('every variance curve over a small alphabet up to a length (all peak '
        'positions, dips, plateaus), every forced index, every signal curve '
        'over values on, just below and just above the thresholds')
ASSUME = ['reference: literal backward scan and linear searches',
          'a range that would be empty (no point fulfils the condition) has '
          'no defined index and is not judged']
SP = {'L': 4, 'L_dark': 4, 'M': 4, 'N': 4, 'M_dark': 4, 'N_dark': 4}


def results(s2, Y, dark=0.0, forced=None, single=False, npint=False):
    n = len(s2)
    Y = np.asarray(Y, float)
    d = np.full(n, float(dark))
    t = {'texp': np.arange(1, n + 1) * 1e6, 'u_p': np.arange(1.0, n + 1),
         'u_y': Y + d, 'u_ydark': d, 's2_y': np.asarray(s2, float),
         's2_ydark': np.full(n, .3)}
    if single:
        t['texp'] = np.full(n, 1e6)
    if npint and forced is not None:
        forced = np.int64(forced)
    return Results1288({'temporal': t, 'spatial': dict(SP)},
                       index_u_ysat=forced), t


def ranges(ctx, r, t, sat):
    smax, lmin, lmax = ref.ranges(t, sat)
    ctx.eq('sensitivity min', int(r.index_sensitivity_min), 0)
    ctx.eq('start', int(r.index_start), 0)
    if smax is not None:
        ctx.eq('sensitivity max', int(r.index_sensitivity_max), smax)
    if lmin is not None:
        ctx.eq('linearity min', int(r.index_linearity_min), lmin)
    if lmax is not None:
        ctx.eq('linearity max', int(r.index_linearity_max), lmax)
    ctx.step(5)
    return smax, lmin, lmax


def run_curve(case, ctx):
    s2 = case
    n = len(s2)
    want = ref.saturation_index(s2)
    Y = [100.0 * (i + 1) / n for i in range(n)]
    r, t = results(s2, Y, 10.0)
    ctx.step()
    ctx.eq('saturation', int(r.index_u_ysat), want)
    ctx.eq('saturation again', int(r.index_u_ysat), want)
    got = ranges(ctx, r, t, want)
    ctx.eq('saturation after the ranges', int(r.index_u_ysat), want)
    # a single strict peak (rising to it, falling from it) is the saturation
    p = max(range(n), key=lambda i: s2[i])
    if all(s2[i] < s2[i + 1] for i in range(p)) and \
            all(s2[i] > s2[i + 1] for i in range(p, n - 1)):
        ctx.eq('single peak', int(r.index_u_ysat), p)
    for f in range(n):
        r, t = results(s2, Y, 10.0, forced=f, npint=f % 2 == 0)
        ctx.eq('forced', int(r.index_u_ysat), f)
        ranges(ctx, r, t, f)
        ctx.eq('still forced', int(r.index_u_ysat), f)
    ctx.state(s2)
    ctx.outcome(want, got)


def run_first(case, ctx):
    """whichever index is asked first, ranges follow the same saturation"""
    s2, order = case
    n = len(s2)
    want = ref.saturation_index(s2)
    Y = [100.0 * (i + 1) / n for i in range(n)]
    r, t = results(s2, Y)
    smax, lmin, lmax = ref.ranges(t, want)
    w = {'index_u_ysat': want, 'index_sensitivity_max': smax,
         'index_linearity_min': lmin, 'index_linearity_max': lmax}
    for name in order:
        if w[name] is not None:
            ctx.step()
            ctx.eq(name, int(getattr(r, name)), w[name])
    ctx.state(case)


def run_signal(case, ctx):
    Y, sat, dark = case
    n = len(Y)
    s2 = [1.0 if i != sat else 5.0 for i in range(n)]
    s2 = [float(i + 1) if i <= sat else float(max(0, sat - (i - sat)))
          for i in range(n)]
    for forced in (sat, None):
        r, t = results(s2, Y, dark, forced)
        w = sat if forced is not None else ref.saturation_index(s2)
        ctx.eq('saturation', int(r.index_u_ysat), w)
        ctx.outcome(ranges(ctx, r, t, w))
    ctx.state(case)


def run_long(case, ctx):
    n, peak, shape, dark = case
    i = np.arange(n)
    s2 = {'tri': np.where(i <= peak, i + 1.0, np.maximum(0., peak + 1. - (i - peak))),
          'cliff': np.where(i <= peak, i + 1.0, 0.0),
          'noise': np.where(i <= peak, i + 1.0 + 3 * (i % 2), 0.5 * (i % 3)),
          'flat': np.where(i <= peak, i + 1.0, peak + 1.0)}[shape]
    Y = np.minimum(i + 1.0, peak + 1.5) * 40
    r, t = results(s2, Y, dark)
    w = ref.saturation_index(list(s2))
    ctx.step()
    ctx.eq('saturation', int(r.index_u_ysat), w)
    if shape == 'tri' or (shape == 'cliff' and n - 1 <= peak + 1):
        ctx.eq('peak', w, min(peak, n - 1))
    ranges(ctx, r, t, w)
    ctx.state(case)
    ctx.outcome(w)


def spaces(tier):
    deep = tier == 'thorough'
    cur = []
    for n in range(1, 8 if deep else 6):
        cur += list(itertools.product((0, 1, 2, 3), repeat=n))
    for n in ((8, 9, 10) if deep else (6, 7)):
        cur += list(itertools.product((0, 1, 2), repeat=n))
    names = ('index_u_ysat', 'index_sensitivity_max', 'index_linearity_min',
             'index_linearity_max')
    first = [(s2, o) for s2 in itertools.product((0, 1, 2), repeat=4)
             for o in itertools.permutations(names)]
    vals = (0.0, 4.9, 5.0, 70.0, 70.1, 95.0, 95.1, 100.0)
    sig = []
    for n in (2, 3, 4) + ((5,) if deep else ()):
        v = vals if n < 4 else (0.0, 5.0, 70.0, 95.0, 100.0)
        for Y in itertools.product(v, repeat=n):
            for sat in range(n):
                if Y[sat] == 100.0:
                    for dark in ((0.0, 16.0) if n < 4 else (16.0,)):
                        sig.append((Y, sat, dark))
    # negative signals (dark brighter than bright)
    for Y in itertools.product((-1.0, 0.0, 10.0, 100.0), repeat=3):
        for sat in range(3):
            sig.append((Y, sat, 50.0))
    long_ = [(n, p, s, d) for n in (9, 20, 50) + ((200,) if deep else ())
             for p in range(n) for s in ('tri', 'cliff', 'noise', 'flat')
             for d in (0.0, 8.0)]
    long_ += [(n, p, s, 8.0) for n in (130, 260, 515) +
              ((1030, 4100) if deep else ())
              for p in (0, 1, n // 3, n // 2, n - 20, n - 2, n - 1)
              for s in ('tri', 'cliff', 'noise', 'flat')]
    # values that differ by little around the maximum
    near = (1.0, 50.0, 50.0 * (1 - 1e-9), 49.9, 49.0, 45.0)
    close = [c for n in ((3, 4, 5, 6) if deep else (3, 4, 5))
             for c in itertools.product(near, repeat=n)]
    close += [(1., 2., 3.) + c + (2., 1.)
              for c in itertools.product(near[1:], repeat=4)]
    return [Space('nearly equal variances', close, run_curve,
                  bound='all curves of length <= %d over 6 values'
                  % (6 if deep else 5)),
            Space('variance curves', cur, run_curve,
                  bound='all curves of length <= %d' % (10 if deep else 7)),
            Space('first access', first, run_first,
                  bound='every order of the four indices'),
            Space('signals', sig, run_signal,
                  bound='all signals over threshold values'),
            Space('long curves', long_, run_long,
                  bound='every peak position')]
