"""C30: characterising the simulated camera"""
import math
import os
import numpy as np
from ..core import Space
from ..util import deviations
from .. import env, sim, ref
from .c27 import Count
from emva1288.camera.dataset_generator import DatasetGenerator
from emva1288.camera.routines import Qe
from emva1288.process import (ParseEmvaDescriptorFile, LoadImageData,
                              Data1288, Results1288)

ID = 'C30'
TECH = ('exhaustive enumeration of bounded camera configurations; the random '
        'generator is replaced by an orthogonal design whose answers have '
        'exactly the moments of the distributions, so that the real '
        'simulator, files, and processing can be compared with the camera '
        'parameters without sampling error')
RULE = ('every camera configuration within a number of deviations from each '
        'of the two measurement modes; recovered against given parameters, '
        'with bounds derived from the discretisation')
ASSUME = ['16 x 16 pixels, 16 images per spatial point',
          'Poisson and normal answers are two-valued (mean +- standard '
          'deviation) along mutually orthogonal +-1 patterns',
          'bounds: 3 % plus 0.3 DN^2 of variance and 0.1 DN of mean']
N = 16


def had(i, n=N):
    return np.array([1 - 2 * (bin(i & k).count('1') % 2) for k in range(n)])


# the imposed patterns are (5, 0), (0, 6) and (3, 12); the noise is orthogonal
GENERIC = [(i, j) for i in range(1, N) for j in range(1, N)
           if (i, j) != (3, 12)]
ROWS = (1, 9, 11)
COLS = (2, 8, 13)


def pattern(src, t):
    """a +-1 pattern; all of one window of 16 images are orthogonal, one in
    16 is constant along rows and one along columns, as for white noise"""
    t %= N
    if t == 2 + src:
        i, j = ROWS[src], 0
    elif t == 9 + src:
        i, j = 0, COLS[src]
    else:
        i, j = GENERIC[(src * N + t) * 4 + src]
    return np.outer(had(i), had(j))


class Moments(sim.Script):
    def __init__(self):
        sim.Script.__init__(self, None)
        self.last = None
        self.count = 0

    def rank(self, k):
        """a fixed permutation of (0..255 + .5) / 256 for image and use"""
        p = np.arange(N * N)
        return (((p * (2 * ((37 * self.t + 59 * k) % 128) + 1) +
                  (p // 16) * 31 + self.t * 53 + k * 11) % 256) +
                .5).reshape(N, N) / 256.

    def poisson(self, lam=1., size=None):
        if self.last != self.t:
            self.last, self.count = self.t, 0
        k = self.count
        self.count += 1
        assert k < 2, 'more than two Poisson draws in an image'
        lam = np.asarray(lam, float)
        s = self._shape(size, lam)
        lam = np.broadcast_to(lam, s).reshape(-1) if lam.size > 1 else \
            np.full(N * N, float(lam))
        lam = lam.reshape(N, N)
        a = np.where(lam >= .8, np.sqrt(np.maximum(lam - 1 / 6., 0)), 0)
        return np.floor(lam + a * pattern(k, self.t) +
                        self.rank(k)).astype(np.int64).reshape(s)

    def normal(self, loc=0., scale=1., size=None):
        s = self._shape(size, loc, scale)
        return loc + scale * pattern(2, self.t).reshape(s)

    def uniform(self, low=0., high=1., size=None):
        s = self._shape(size, low, high)
        return low + (high - low) * self.rank(3).reshape(s)


def imposed(kind, size):
    y, x = np.mgrid[:N, :N]
    v = {'rows': had(5)[:, None] * np.ones((1, N)),
         'cols': had(6)[None, :] * np.ones((N, 1)),
         'pixels': np.outer(had(3), had(12)),
         'all': had(5)[:, None] + had(6)[None, :] * 2. +
         3. * np.outer(had(3), had(12))}[kind]
    return v * size


def quantum(kind):
    if kind == 'mono':
        wl, q = [550.], [.6]
    elif kind == 'low':
        wl, q = [550.], [.15]
    elif kind == 'full':
        wl, q = [500., 510.], [1., 1.]
    else:
        wl, q = [400., 550., 700.], [.2, .7, .45]
    a = np.zeros((N, N, len(wl))) + np.array(q)
    return np.array(wl), a


DEF = {'mode': 'exposure', 'bits': 12, 'K': 1., 'bo': 150, 'qe': 'mono',
       'T': 22, 'dark': 30000, 'signal': 10., 's2': 25., 'dsnu': None,
       'prnu': None, 'area': None, 'steps': 10, 'f': 8, 'emin': 5e5,
       'emax': 2e7, 'tdoub': 8}
AX = {'bits': (10, 12, 14, 16), 'K': (.5, 1., 2., 8.),
      'bo': (100, 150, 220), 'qe': ('mono', 'low', 'full', 'three'),
      'T': (0, 22, 30, 38), 'dark': (0, 3000, 30000, 100000),
      'signal': (0., 10., 40.), 's2': (4., 25., 100.),
      'dsnu': (None, ('rows', 6.), ('cols', 6.), ('pixels', 6.),
               ('all', 3.), ('rows', 12.)),
      'prnu': (None, ('rows', .02), ('cols', .02), ('pixels', .02),
               ('all', .01), ('pixels', .05)),
      'area': (None, 25.), 'steps': (6, 10, 15), 'f': (2, 8),
      'emin': (5e5, 3e6), 'emax': (2e7, 6e7), 'tdoub': (6, 8)}
PARTS = ('', '_row', '_col', '_pixel')


def expected_parts(p):
    """strength of an imposed pattern: total, rows, columns, pixels"""
    s = {'M': N, 'N': N}
    mean = p.mean()
    s['avg_var'] = float(((p - mean) ** 2).sum() / (N * N - 1))
    s['cav'] = float(p.mean(axis=0).var())
    s['rav'] = float(p.mean(axis=1).var())
    pix = (s['avg_var'] - s['cav'] - s['rav']) / (1 - 2. / N)
    return {'': s['avg_var'], '_row': s['rav'] - pix / N,
            '_col': s['cav'] - pix / N, '_pixel': pix}


def run(case, ctx):
    c = case
    wl, qa = quantum(c['qe'])
    K = c['K']
    top = 2 ** c['bits'] - 1
    rate = c['dark'] * 2. ** ((c['T'] - 30.) / c['tdoub'])
    th_max = rate * c['emax'] / 1e9
    # the domain: nothing is clipped in the dark, light can saturate
    sd = math.sqrt(c['s2'] + th_max)
    low = c['bo'] + K * (c['signal'] - 2 * sd)
    ds = imposed(*c['dsnu']) if c['dsnu'] else np.zeros((N, N))
    pr = 1 + imposed(*c['prnu']) if c['prnu'] else np.ones((N, N))
    # electrons are clipped at zero
    floor = c['signal'] + ds.min() - math.sqrt(c['s2'])
    if low < 5 or floor < 0:
        ds = ds + max(0., -floor + 1)
    if c['signal'] + ds.min() < math.sqrt(c['s2']) + 1:
        return ctx.outcome('out of domain')
    if K * th_max > .5 * top or top / K < 300:
        return ctx.outcome('out of domain')
    script = Moments()

    def factory(seed, real):
        script.real = real
        return script
    env.RNG_FACTORY[0] = factory
    kw = dict(bit_depth=c['bits'], width=N, height=N, K=K, K_min=K, K_max=K,
              K_steps=1, blackoffset=c['bo'], blackoffset_min=c['bo'],
              blackoffset_max=c['bo'] + 1, blackoffset_steps=2,
              qe=Qe(qe=qa.copy(), wavelength=wl, width=N, height=N),
              temperature=c['T'], temperature_doubling=c['tdoub'],
              dark_current_ref=c['dark'], dark_signal_0=c['signal'],
              sigma2_dark_0=c['s2'], u_esat=1e9, f_number=c['f'],
              exposure_min=c['emin'], exposure_max=c['emax'],
              dsnu=ds if c['dsnu'] else None,
              prnu=pr if c['prnu'] else None, seed=1)
    if ds.any() and not c['dsnu']:
        kw['dark_signal_0'] = c['signal'] + float(ds[0, 0])
    fixed = c['emin'] if c['mode'] == 'photon' else None
    ctx.step()
    out = os.path.join(ctx.tmp, 'd')
    with Count(script):
        d = DatasetGenerator(steps=c['steps'], L=N, outdir=out,
                             exposure_fixed=fixed, **kw)
    info = ParseEmvaDescriptorFile(d.descriptor_path)
    data = Data1288(LoadImageData(info.images).data).data
    r = Results1288(data, pixel_area=c['area'])
    env.RNG_FACTORY[0] = None

    # what the camera is
    if c['mode'] == 'photon':
        qe = float((qa[0, 0] * wl ** 2).sum() / (wl ** 2).sum())
        th0 = rate * fixed / 1e9
    else:
        qe = float(qa[0, 0].mean())
        th0 = 0.
    smax = int(r.index_sensitivity_max)
    ys = float((data['temporal']['u_y'] - data['temporal']['u_ydark'])[smax])
    ctx.true('range of the fit', ys > .2 * top, ys, top)

    def near(label, got, want, rel, extra=0.):
        ctx.step()
        ctx.true(label, abs(float(got) - want) <= rel * abs(want) + extra,
                 float(got), want, rel, extra)
    var = 1. if c['prnu'] is None else 1 + float(pr.var())
    # fewer thermal electrons than a two-valued distribution can have
    few = K * K * (.17 + min(th_max, .8) ** 2)
    tk = .03 + .5 / (K * ys)
    near('gain', r.K, K, tk)
    near('responsivity', r.R, K * qe, .01 + .3 / ys)
    near('quantum efficiency', r.QE, 100 * qe, tk + .01)
    if c['mode'] == 'exposure':
        n = c['steps']
        span = (c['emax'] - c['emin']) / 1e9
        vmax = K * K * (c['s2'] + th_max) + .5
        near('dark current (mean, DN)', r.u_I_mean_DN, K * rate, .01,
             .3 / span)
        near('dark current (mean)', r.u_I_mean, rate, .02 + tk,
             .3 / span / K)
        if K * K * rate * span > 5:
            near('dark current (variance)', r.u_I_var, rate, .05 + 2 * tk,
                 (.6 + .03 * vmax + few) / span / K / K)
        s2 = c['s2']
        slack = .6 + .03 * vmax + 1.5 * few
    else:
        ctx.true('no dark current from one exposure',
                 math.isnan(r.u_I_mean) and math.isnan(r.u_I_var))
        s2 = c['s2'] + th0
        slack = .3 + .03 * K * K * s2 + few
    near('dark noise (DN^2)', float(r.sigma_y_dark) ** 2, K * K * s2 +
         1 / 12., 0., slack)
    near('dark noise (e^2)', float(r.sigma_d) ** 2, s2, 2 * tk,
         slack / K / K)
    near('saturation', r.u_e_sat * K, float(
        (data['temporal']['u_y'] - data['temporal']['u_ydark'])[
            int(r.index_u_ysat)]), .03 + tk)
    # non-uniformity
    sp = r.spatial
    lam = float(sp['avg_mean'] - sp['avg_mean_dark']) / K
    tmid = float(sp['texp'])
    ndark = c['s2'] + rate * tmid / 1e9 + .25 / K / K
    wd = expected_parts(ds)
    spread = 3 * K * math.sqrt(lam + ndark + float((lam * pr + ds).var()))
    lit = float(sp['avg_mean']) + spread < top
    # what the standard measures as PRNU includes the correlation of the two
    wb = expected_parts(lam * pr + ds)
    wp = {k: (wb[k] - wd[k]) / lam ** 2 for k in wd}
    for part in PARTS:
        # variance of the average image that remains from noise
        left = .012 * ndark + .02 / K / K
        got = float(getattr(r, 'DSNU1288' + part))
        want = max(wd[part], 0)
        g2 = 0. if math.isnan(got) else got * got
        ctx.step()
        ctx.true('DSNU%s' % part, abs(g2 - want) <= left + (.02 + 2 * tk) *
                 want, got, math.sqrt(want), left)
        if not lit:
            continue
        got = float(getattr(r, 'PRNU1288' + part))
        want = max(wp[part], 0) * 1e4
        left = 1e4 * .012 * (ndark + lam * var + c['s2'] + .5 / K / K) / \
            lam ** 2 + 1e4 * .02 * wd[part] / lam ** 2
        g2 = 0. if math.isnan(got) else got * got
        ctx.step()
        ctx.true('PRNU%s' % part, abs(g2 - want) <= left + .03 * want, got,
                 math.sqrt(want), left)
    ctx.state(case)
    ctx.outcome(lit, round(float(r.K), 4), round(float(r.QE), 3))


def spaces(tier):
    deep = tier == 'thorough'
    cfg = []
    for mode in ('exposure', 'photon'):
        d = dict(DEF, mode=mode)
        ax = dict(AX)
        if mode == 'photon':
            d['emin'] = 3e6
        cfg += list(deviations(d, ax, 3 if deep else 2))
    return [Space('cameras', cfg, run,
                  bound='up to %d deviations over %d axes, 2 modes'
                  % (3 if deep else 2, len(AX)))]
