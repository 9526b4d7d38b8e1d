"""A whole measurement from raw images to every quantity (reference)."""
import math
import os
from fractions import Fraction as F

import numpy as np
from PIL import Image

from . import ref


class Skip(Exception):
    """the measurement is on a decision boundary or outside the domain"""


class Measurement(object):
    """temporal: [(exposure, photons, (a, b))], photons 0 for dark;
    spatial: [(exposure, photons, [images])]"""

    def __init__(self, bits, temporal, spatial, version='4.0'):
        self.bits, self.temporal, self.spatial = bits, temporal, spatial
        self.version = version
        self.shape = np.asarray(temporal[0][2][0]).shape

    def files(self):
        """[(series, index in series)] in declared order"""
        return [(k, i) for k, s in enumerate(self.temporal + self.spatial)
                for i in range(len(s[2]))]

    def write(self, root, ext='png', order=None):
        os.makedirs(os.path.join(root, 'images'), exist_ok=True)
        lines = ['v %s' % self.version, 'n %d %d %d' % (
            self.bits, self.shape[1], self.shape[0])]
        series = self.temporal + self.spatial
        for k in (order or range(len(series))):
            t, p, imgs = series[k]
            lines.append('b %.1f %.3f' % (t, p) if p else 'd %.1f' % t)
            for i, img in enumerate(imgs):
                name = 's%d_%d.%s' % (k, i, ext)
                a = np.asarray(img)
                a = a.astype(np.uint8 if self.bits <= 8 else np.uint16)
                Image.fromarray(a).save(os.path.join(root, 'images', name))
                lines.append('i images\\%s' % name)
        fn = os.path.join(root, 'EMVA1288descriptor.txt')
        with open(fn, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        return fn

    def arrays(self):
        """the temporal arrays of the standard, sorted"""
        dark = {}
        bright = []
        for t, p, (a, b) in self.temporal:
            mv = ref.temporal_point(a, b)
            if p:
                bright.append((t, p) + mv)
            else:
                dark[t] = mv
        bright.sort()
        return {'texp': np.array([b[0] for b in bright]),
                'u_p': np.array([b[1] for b in bright]),
                'u_y': np.array([float(b[2]) for b in bright]),
                's2_y': np.array([float(b[3]) for b in bright]),
                'u_ydark': np.array([float(dark[b[0]][0]) for b in bright]),
                's2_ydark': np.array([float(dark[b[0]][1])
                                      for b in bright])}

    def stacks(self):
        b = [s[2] for s in self.spatial if s[1]][0]
        d = [s[2] for s in self.spatial if not s[1]][0]
        return b, d


def reference(m, area=None, forced=None):
    """-> {name: (value, absolute tolerance)}; raises Skip"""
    t = m.arrays()
    sat = ref.saturation_index(list(t['s2_y'])) if forced is None else forced
    Y = t['u_y'] - t['u_ydark']
    # no decision within rounding of its threshold
    s2 = t['s2_y']
    for i in range(len(s2)):
        for j in range(i):
            d = abs(s2[i] - s2[j])
            if d <= 1e-9 * abs(s2[i]):
                raise Skip('equal variances')
    for q in (.05, .7, .95):
        if np.min(np.abs(Y - q * Y[sat])) < 1e-9 * abs(Y[sat]):
            raise Skip('threshold')
    smax, lmin, lmax = ref.ranges(t, sat)
    if smax is None or lmin is None or lmax is None or smax < 1 or \
            lmax <= lmin or Y[sat] <= 0:
        raise Skip('no range')
    out = {'index_start': 0, 'index_sensitivity_min': 0,
           'index_u_ysat': sat, 'index_sensitivity_max': smax,
           'index_linearity_min': lmin, 'index_linearity_max': lmax}
    s = ref.sensitivity(t, sat, area)
    K = s['K']
    if not K > 0 or not s['R'] > 0:
        raise Skip('no gain')
    out.update(s)
    lin = ref.linearity(t, lmin, lmax)
    out['LE_min'] = lin['linearity_error_min']
    out['LE_max'] = lin['linearity_error_max']
    tol = {'LE_min': 1e-6, 'LE_max': 1e-6}
    dc = ref.dark_current(t, K)
    out.update(dc)
    if len(set(t['texp'])) >= 3:
        span = 1e9 / (t['texp'].max() - t['texp'].min())
        for k, v in dc.items():
            sc = (np.abs(t['u_ydark']).max() if 'mean' in k else
                  np.abs(t['s2_ydark']).max()) + 1
            tol[k] = 1e-7 * sc * span / min(1, K) ** 2
        sl = ref.fit1(t['texp'], t['s2_ydark'])[0] * 1e9
        if abs(sl) < 1e-7 * span * np.abs(t['s2_ydark']).max():
            out.pop('u_I_var')
            out.pop('u_I_var_DN')
    b, d = m.stacks()
    sb, sd = ref.spatial_stats(b), ref.spatial_stats(d)
    if sb['avg_mean'] <= sd['avg_mean']:
        raise Skip('bright not brighter')
    nu = ref.nonuniformity(sb, sd, K)
    scale = float(max(sb['avg_var'], sd['avg_var'], sb['var_mean'], 1)) * 4
    for k, v in nu.items():
        if k.startswith(('s_2', 'sigma_2')):
            out[k] = v
            tol[k] = 1e-9 * scale
        else:
            # root of a variance within rounding of zero: not judged
            part = k.split('_')[1] if '_' in k and 'DN' not in k else ''
            base = 's_2_y' + ('_' + part if part else '')
            var = nu[base + '_dark'] if k.startswith('DSNU') else \
                nu[base] - nu[base + '_dark']
            if abs(var) > 1e-7 * scale:
                out[k] = v
    return {k: (v, tol.get(k, 0.)) for k, v in out.items()}, t


def check_values(ctx, label, got, want, rtol=1e-6):
    """got: name -> value; every wanted value must be there"""
    for k in sorted(want):
        w, atol = want[k]
        ctx.true(label + ' has ' + k, k in got)
        g = got[k]
        if w is None:
            ctx.true('%s %s is None' % (label, k), g is None, g)
            continue
        ctx.true('%s %s is a number' % (label, k), g is not None)
        g, w = float(g), float(w)
        if math.isinf(w) or math.isinf(g):
            ctx.true('%s %s' % (label, k), g == w, g, w)
            continue
        ctx.close('%s %s' % (label, k), g, w, rtol, atol)
    ctx.step(len(want))


def noise(h, w, k):
    """a fixed zero-mean pattern of +-1, +-2"""
    y, x = np.mgrid[:h, :w]
    n = (y * 7 + x * 13 + y * x * 5 + k * 3) % 4
    return np.array([-2, -1, 1, 2])[n]


def simulate(bits=8, shape=(6, 7), n=6, mode='exposure', K=None, dark=8.,
             dark_slope=0., L=3, Ld=3, prnu='both', dsnu='pixels', seed=0,
             texp=1e6, sat=1.08, qe=.5, dn=1.0, bend=None):
    """a plausible measurement, every pixel a fixed function of the
    arguments"""
    h, w = shape
    y, x = np.mgrid[:h, :w]
    top = 2 ** bits - 1
    pat = {'none': y * 0., 'rows': (y % 3) - 1., 'cols': (x % 4) - 1.5,
           'both': ((y % 3) - 1.) + ((x % 4) - 1.5),
           'pixels': ((y * 7 + x * 5 + y * x * 3) % 11) - 5.,
           'hot': ((y == h // 2) & (x == w // 2)) * 40.}
    K = K or top / 2000.
    full = top * sat

    def image(level, var, k, dpat=1.):
        v = level * (1 + .01 * pat[prnu]) + dn * dpat * pat[dsnu] * .5
        a = math.sqrt(max(var, 0) / 2.5)
        v = v + a * noise(h, w, k + seed) * (1 if k % 2 else -1)
        return np.clip(np.rint(v), 0, top).astype(np.int64)

    def series(t, i, L, lit):
        d = dark + dark_slope * t / 1e9
        level = 0.
        if lit:
            level = (full - d) * (i + 1) / n
            if bend and i == bend[0] % n:
                level *= bend[1]
        var = 4. * dn * dn + K * level
        if level + d > top:
            var *= .1
        imgs = [image(level, var, 2 * i + j * (3 if L > 2 else 1) + lit)
                + int(round(d)) for j in range(L)]
        imgs = [np.clip(g, 0, top) for g in imgs]
        p = round(level / K / qe, 3) if lit else 0.
        return (t, p, imgs)
    temporal, spatial = [], []
    for i in range(n):
        t = texp * (i + 1) if mode == 'exposure' else texp
        if mode == 'exposure' or i == 0:
            temporal.append(series(t, i, 2, 0))
        temporal.append(series(t, i, 2, 1))
    i = n // 2
    t = texp * (i + 1) if mode == 'exposure' else texp
    spatial.append(series(t, i, Ld, 0))
    spatial.append(series(t, i, L, 1))
    return Measurement(bits, temporal, spatial)
