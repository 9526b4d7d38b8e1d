"""The camera as the standard describes it, and the scripted environment.

``Script`` replaces the random generator of a camera.  Its answers are chosen
by the explorer: every method answers from a field that depends only on the
script (a seed), the number of the image (``t``) and the distribution, never
on how often or in which order the methods are called within one image.
"""
import math

import numpy as np

H, C = 6.63e-34, 3.00e8


class Script(object):
    """answers of the random generator"""

    def __init__(self, pick, real=None):
        #: pick(method, t, shape) -> array: poisson: offset from the mean in
        #: counts, normal: number of standard deviations, uniform: 0..1
        self.pick = pick
        self.real = real
        self.t = 0
        self.calls = []

    @staticmethod
    def _shape(size, *args):
        if size is None:
            return np.broadcast(*args).shape if args else ()
        return (size,) if np.isscalar(size) else tuple(size)

    def poisson(self, lam=1.0, size=None):
        s = self._shape(size, lam)
        self.calls.append('poisson')
        v = poisson(lam, self.pick('poisson', self.t, s), s)
        return v if s else int(v)

    def normal(self, loc=0.0, scale=1.0, size=None):
        s = self._shape(size, loc, scale)
        self.calls.append('normal')
        return loc + scale * np.asarray(self.pick('normal', self.t, s),
                                        float)

    def standard_normal(self, size=None):
        return self.normal(0., 1., size)

    def uniform(self, low=0.0, high=1.0, size=None):
        s = self._shape(size, low, high)
        self.calls.append('uniform')
        return low + (high - low) * np.asarray(
            self.pick('uniform', self.t, s), float)

    def random(self, size=None):
        return self.uniform(0., 1., size)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.real, name)


def poisson(lam, off, shape):
    lam = np.broadcast_to(np.asarray(lam, float), shape)
    return np.maximum(np.rint(lam) + off, 0).astype(np.int64)


def field(seed):
    """a fixed, varied choice of answers"""
    def pick(method, t, shape):
        # by position only, so that the images may be drawn flat
        i = np.arange(int(np.prod(shape, dtype=int)))
        n = i * 37 + i // 7 * 13 + t * 17 + seed * 101
        if method == 'poisson':
            v = n % 5 - 2
        elif method == 'normal':
            v = (n % 7 - 3) / 2.
        else:
            v = ((n * 5) % 11) / 11. + .02
        return v.reshape(shape)
    return pick


def photons(radiance, exposure, area, w, f):
    """per pixel and wavelength"""
    return np.asarray(radiance) * math.pi * (area * 1e-12) * \
        (exposure * 1e-9) * (w * 1e-9) ** 2 / (H * C * (1 + 4. * f * f))


def spaced(lo, hi, n):
    if n == 1:
        return [float(lo)]
    return [lo + (hi - lo) * i / (n - 1.) for i in range(n)]


def nearest(value, lo, hi, n):
    """all available values nearest to the request (two for a tie)"""
    v = spaced(lo, hi, n)
    d = [abs(x - value) for x in v]
    m = min(d)
    return [x for x, y in zip(v, d) if y <= m + 1e-9 * max(1, abs(hi))]


class Model(object):
    """reference camera"""
    PAR = dict(f_number=8, pixel_area=25, bit_depth=8, width=3, height=2,
               temperature=22, temperature_ref=30, temperature_doubling=8,
               exposure=1000000, exposure_min=500000, exposure_max=500000000,
               K=0.1, K_min=0.1, K_max=17., K_steps=255, blackoffset=0,
               blackoffset_min=0, blackoffset_max=None,
               blackoffset_steps=255, dark_current_ref=30, dark_signal_0=10.,
               sigma2_dark_0=10., u_esat=15000.)

    def __init__(self, p, w, qe, dsnu=None, prnu=None):
        q = dict(self.PAR)
        q.update(p)
        self.p = q
        self.w, self.qe = np.array(w, float), np.array(qe, float)
        s = (q['height'], q['width'])
        self.shape = s
        self.dsnu = np.zeros(s) if dsnu is None else np.array(dsnu, float)
        self.prnu = np.ones(s) if prnu is None else np.array(prnu, float)
        self.max = 2 ** int(q['bit_depth']) - 1
        self.T, self.f = q['temperature'], q['f_number']
        self.exposure = q['exposure']
        bm = q['blackoffset_max']
        self.kr = (q['K_min'], q['K_max'], q['K_steps'])
        self.br = (q['blackoffset_min'], self.max // 16 if bm is None else bm,
                   q['blackoffset_steps'])
        self.Kc = nearest(q['K'], *self.kr)
        self.bc = nearest(q['blackoffset'], *self.br)
        self.K = self.Kc[0]
        self.bo = self.bc[0]

    def set_K(self, v):
        self.Kc = nearest(v, *self.kr)
        self.K = self.Kc[0]

    def set_bo(self, v):
        self.bc = nearest(v, *self.br)
        self.bo = self.bc[0]

    def adopt(self, K, bo):
        """of two equally near values take the one the camera took; False if
        the camera took another one"""
        for v in self.Kc:
            if abs(v - K) <= 1e-9 * max(1, abs(v)):
                self.K = float(K)
                self.Kc = [v]
                break
        else:
            return False
        for v in self.bc:
            if abs(v - bo) <= 1e-9 * max(1, abs(v)):
                self.bo = float(bo)
                self.bc = [v]
                return True
        return False

    def thermal(self, T=None, exposure=None):
        p = self.p
        T = self.T if T is None else T
        t = self.exposure if exposure is None else exposure
        return p['dark_current_ref'] * 2. ** (
            (T - p['temperature_ref']) / float(p['temperature_doubling'])
        ) * t / 1e9

    def light(self, radiance, f=None):
        f = self.f if f is None else f
        ph = photons(radiance, self.exposure, self.p['pixel_area'], self.w, f)
        return (ph * self.qe).sum(axis=2) * self.prnu

    def grab(self, pick, t, radiance, T=None, f=None):
        """-> (value before rounding, usable pixels)"""
        s = self.shape
        th = np.broadcast_to(self.thermal(T), s)
        li = np.broadcast_to(self.light(radiance, f), s)
        off = pick('poisson', t, s)
        ok = np.ones(s, bool)
        for lam in (th, li):
            fr = np.abs(lam - np.floor(lam) - .5)
            ok &= fr > 1e-6 + 1e-12 * lam
        e = poisson(th, off, s) + poisson(li, off, s) + self.dsnu + \
            self.p['dark_signal_0'] + \
            math.sqrt(self.p['sigma2_dark_0']) * pick('normal', t, s)
        e = np.clip(e, 0, self.p['u_esat'])
        v = self.K * e + self.bo + pick('uniform', t, s) - .5
        return np.clip(v, 0, self.max), ok


def check_image(ctx, label, img, model, want=None, ok=None):
    """validity and, if given, agreement with the model"""
    ctx.true(label + ' is an array', isinstance(img, np.ndarray))
    ctx.eq(label + ' shape', list(img.shape), list(model.shape))
    ctx.true(label + ' unsigned integers', img.dtype.kind == 'u', img.dtype)
    ctx.true(label + ' wide enough',
             int(np.iinfo(img.dtype).max) >= model.max, img.dtype)
    ctx.true(label + ' range', int(img.max()) <= model.max)
    if want is None:
        return
    d = np.abs(img.astype(float) - want)
    bad = ok & (d > .5 + 1e-6 + 1e-9 * np.abs(want))
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        ctx.fail(label + ' value', 'at %s got %r want %.6f'
                 % (i, img[i], want[i]))
