"""C27: automatic gain and black offset"""
import inspect
import itertools
import os
import numpy as np
from ..core import Space
from .. import env, sim
from .c21 import qe_of
from emva1288.camera import Camera
from emva1288.camera import dataset_generator as dg
from emva1288.camera.dataset_generator import DatasetGenerator

ID = 'C27'
TECH = ('exhaustive enumeration of the answers of the random generator '
        '(which pixels leave zero, which pixels differ between two images, '
        'at which available setting) driving the real dataset generator')
RULE = ('every placement of the position at which the criterion is met, with '
        'every number of exceptional pixels around the limits, for every '
        'grid of available settings, with and without given values')
ASSUME = ['standard deviation over all pixels (n in the denominator)',
          'the images of one dataset alternate between two noise patterns, '
          'so that any two consecutive dark images are the enumerated pair']


class Count(object):
    """numbers the images of every camera while active"""

    def __init__(self, script):
        self.script = script

    def __enter__(self):
        self.orig = Camera.grab
        script, orig = self.script, self.orig

        def grab(cam, *a, **k):
            script.t += 1
            return orig(cam, *a, **k)
        Camera.grab = grab

    def __exit__(self, *a):
        Camera.grab = self.orig


def make_script(e, q):
    """e: [pattern 0, pattern 1] of dark electrons, q quantization noise"""
    def pick(method, t, s):
        if method == 'poisson':
            return np.zeros(s)
        if method == 'normal':
            return np.asarray(e[t % 2], float).reshape(s)
        return np.full(s, q + .5)
    return sim.Script(pick)


def common(shape):
    h, w = shape
    return dict(width=w, height=h, qe=qe_of('mono', h, w), dark_signal_0=0.,
                sigma2_dark_0=1., dark_current_ref=0, bit_depth=8,
                u_esat=1e9, exposure_min=1e6, exposure_max=2e6, seed=3)


def dark(e, K, bo, q):
    v = K * np.clip(np.asarray(e, float), 0, None) + bo + q
    fr = np.abs(v - np.floor(v) - .5)
    assert fr.min() > 1e-3, 'tie in the scenario'
    return np.clip(np.rint(v), 0, 255)


def expected_bo(e, K, grid, q):
    for b in grid:
        imgs = [dark(x, K, b, q) for x in e]
        ok = [np.count_nonzero(i) * 1000 > 995 * i.size for i in imgs]
        assert ok[0] == ok[1]
        if ok[0]:
            return b
    return grid[-1]


def expected_K(e, grid, bo, q):
    for K in grid:
        d = dark(e[0], K, bo, q) - dark(e[1], K, bo, q)
        n = d.size
        # exact: variance > 1/4
        s, s2 = int(d.sum()), int((d * d).sum())
        if 4 * (n * s2 - s * s) > n * n:
            return K
    return grid[-1]


def generate(ctx, e, q, shape, kw, K, bo):
    script = make_script(e, q)

    def factory(seed, real):
        script.real = real
        return script
    env.RNG_FACTORY[0] = factory
    ctx.step()
    with Count(script):
        d = DatasetGenerator(steps=2, L=3, **kw)
        ctx.close('gain used', float(d.cam.K), K, 1e-9)
        ctx.close('black offset used', float(d.cam.blackoffset), bo, 1e-9,
                  1e-9)
    del d
    # the search itself restores what it varied
    for name, what in (('_get_emva_gain', 'K'),
                       ('_get_emva_blackoffset', 'blackoffset')):
        f = getattr(dg, name, None)
        try:
            inspect.signature(f).bind(None)
        except TypeError:
            continue            # not there, or to be used in another way
        with Count(script):
            cam = Camera(**kw)
            for v in (cam.Ks[-1], cam.Ks[0]):
                cam.K = v
                b = (float(cam.K), float(cam.blackoffset),
                     float(cam.exposure), dict(cam.environment))
                f(cam)
                ctx.step()
                ctx.eq(name + ' restores', (
                    float(cam.K), float(cam.blackoffset),
                    float(cam.exposure), dict(cam.environment)), b)
    env.RNG_FACTORY[0] = None


def run_black(case, ctx):
    shape, K, lo, hi, n, groups = case
    grid = sim.spaced(lo, hi, n)
    step = grid[1] - grid[0] if n > 1 else 1.
    N = shape[0] * shape[1]
    e = np.zeros(N)
    q = -.45
    # pixel of group j leaves zero at grid index j
    pos = 0
    for j, cnt in groups:
        cnt = N - pos if cnt is None else cnt
        e[pos:pos + cnt] = max(0, (1.0 - q - .5 - (lo + j * step) +
                                   step * .3 - .0) / K) \
            if j is not None else 0.
        pos += cnt
    e = np.roll(e, 7)
    kw = dict(common(shape), K=K, K_min=K, K_max=K, K_steps=1,
              blackoffset_min=lo, blackoffset_max=hi, blackoffset_steps=n)
    want = expected_bo([e, e], K, grid, q)
    generate(ctx, [e, e], q, shape, kw, K, want)
    ctx.state(case)
    ctx.outcome(want)


def run_gain(case, ctx):
    shape, lo, hi, n, bo, groups, shift = case[:7]
    high = case[7] if len(case) > 7 else 1
    grid = sim.spaced(lo, hi, n)
    N = shape[0] * shape[1]
    a, b = np.full(N, 0.), np.full(N, 0.)
    pos = 0
    for j, cnt, sign in groups:
        # differs by one from grid index j on
        amp = high * .5 / (grid[j] * .98) if j is not None else .3 / grid[-1]
        for k in range(pos, min(N, pos + cnt)):
            s = sign if sign else (1 if (k - pos) % 2 == 0 else -1)
            (a if s > 0 else b)[k] = amp
        pos += cnt
    if shift:
        b = b + shift / grid[0]
    q = .004
    kw = dict(common(shape), blackoffset=bo, blackoffset_min=bo,
              blackoffset_max=bo + 1, blackoffset_steps=2, K_min=lo,
              K_max=hi, K_steps=n)
    want = expected_K([a, b], grid, bo, q)
    generate(ctx, [a, b], q, shape, kw, want, bo)
    ctx.state(case)
    ctx.outcome(want)


def run_both(case, ctx):
    """nothing, one or both given; whole-number black offsets"""
    shape, given_K, given_b, j, jb = case
    grid = sim.spaced(.5, 4., 8)
    bgrid = sim.spaced(0, 4, 5)
    N = shape[0] * shape[1]
    a, b = np.zeros(N), np.zeros(N)
    amp = .5 / (grid[j] * .98) if j is not None else .01
    a[0::2] = amp
    b[1::2] = amp
    if jb == 0:
        a, b = a + 20, b + 20       # nothing is ever zero
    q = .004
    kw = dict(common(shape), blackoffset_min=0, blackoffset_max=4,
              blackoffset_steps=5, K_min=.5, K_max=4., K_steps=8)
    if given_K is not None:
        kw['K'] = given_K
        K = sim.nearest(given_K, .5, 4., 8)[0]
    if given_b is not None:
        kw['blackoffset'] = given_b
        bo = sim.nearest(given_b, 0, 4, 5)[0]
    else:
        bo = 0. if jb == 0 else 1.
    if given_K is None:
        K = expected_K([a, b], grid, bo, q)
    if given_b is None:
        for k in (grid[0], K):
            assert expected_bo([a, a], k, bgrid, q) == bo or j == 0
    generate(ctx, [a, b], q, shape, kw, K, bo)
    ctx.state(case)
    ctx.outcome(K, bo)


def spaces(tier):
    deep = tier == 'thorough'
    black = []
    for shape in ((10, 20), (20, 20), (8, 8)) + (((25, 40),) if deep else
                                                ()):
        N = shape[0] * shape[1]
        lim = sorted({0, 1, 2, 3, int(N * .005), int(N * .005) + 1, N // 2})
        for lo, hi, n in ((0., 1., 11), (0., .5, 6), (.1, .3, 3)):
            for j1 in range(n):
                for j2 in list(range(j1, n)) + [None]:
                    for k in lim:
                        if not deep and N == 64 and k > 1:
                            continue
                        for K in (1., 4.) if deep else (1.,):
                            black.append((shape, K, lo, hi, n,
                                          [(j2, k), (j1, None)]))
        for j1, j2, j3 in itertools.combinations(range(6), 3):
            for k2, k3 in itertools.product(lim[:4], repeat=2):
                black.append((shape, 1., 0., 1., 11,
                              [(2 * j2, k2), (2 * j3, k3), (j1, None)]))
    gain = []
    for shape in ((8, 8), (4, 5)) + (((10, 20),) if deep else ()):
        N = shape[0] * shape[1]
        for lo, hi, n in ((.5, 4., 8), (1., 3., 3), (2., 2., 1)):
            for j in list(range(n)) + [None]:
                for cnt in sorted({0, 1, N // 4 - 1, N // 4, N // 4 + 1,
                                   N // 4 + 2, N // 2, N}):
                    for sign in (0, 1, -1):
                        for sh in (0, 1):
                            gain.append((shape, lo, hi, n, 5,
                                         [(j, cnt, sign)], sh))
        for j1, j2 in itertools.combinations(range(0, 8, 1 if deep else 2),
                                             2):
            for c1, c2 in itertools.product((1, N // 8, N // 4), repeat=2):
                for s1, s2 in ((0, 0), (1, -1), (1, 1)):
                    gain.append((shape, .5, 4., 8, 5,
                                 [(j1, c1, s1), (j2, c2, s2)], 0))
    # one image of the pair may be black altogether, the other not
    black1 = [(shape, lo, hi, n, bo, [(j, cnt, sign)], 0, high)
              for shape in ((8, 8), (4, 5), (10, 20))
              for lo, hi, n in ((.5, 4., 8), (1., 3., 3), (2., 2., 1))
              for bo in (0, 1)
              for j in list(range(n)) + [None]
              for cnt in sorted({1, 2, shape[0], shape[0] * shape[1] // 4,
                                 shape[0] * shape[1] // 2,
                                 shape[0] * shape[1] - 1})
              for sign in (1, -1, 0)
              for high in ((3, 7, 41) if deep else (3, 17))]
    both = [((10, 20), gk, gb, j, jb) for gk in (None, .5, 2.1, 100, 0)
            for gb in (None, 0, 2, 3.4, 1e4)
            for j in (0, 1, 4, 7, None) for jb in (0, 1)]
    return [Space('black offset', black, run_black,
                  bound='every threshold position on 3 grids'),
            Space('gain', gain, run_gain,
                  bound='every threshold position on 3 grids'),
            Space('black image', black1, run_gain,
                  bound='one image black, every threshold position'),
            Space('given values', both, run_both, bound='all combinations')]
