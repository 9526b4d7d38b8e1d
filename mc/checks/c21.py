"""C21: simulated images"""
import itertools
import numpy as np
from ..core import Space
from ..util import big_shapes, deviations
from .. import env, sim
from emva1288.camera import Camera
from emva1288.camera.routines import Qe

ID = 'C21'
TECH = ('stateless exploration of the real camera with the random generator '
        'replaced by an enumerated environment, against a reference camera')
RULE = ('every vector of random-generator answers over a small alphabet for '
        'tiny sensors; every camera configuration within a number of '
        'deviations from a default, with every radiance and call-time '
        'override; every image compared pixel by pixel with the reference '
        'camera, and its type and range checked with the real generator too')
ASSUME = ['the camera takes its generator from numpy.random.default_rng and '
          'draws Poisson numbers of the thermal and of the light electrons, '
          'normal dark signals and uniform quantization noise',
          'pixels whose electron mean lies within 1e-6 of a rounding tie of '
          'the scripted Poisson answer are not compared',
          'up to 53 bits, what the double precision images can hold']


def qe_of(kind, h, w):
    if kind is None:
        return None
    y, x = np.mgrid[:h, :w]
    if kind == 'mono':
        wl = np.array([550.])
        q = np.full((h, w, 1), .5)
    elif kind == 'zero':
        wl = np.array([500., 600.])
        q = np.zeros((h, w, 2))
    else:
        wl = np.array([400., 550., 700.])
        q = np.zeros((h, w, 3))
        for k in range(3):
            q[:, :, k] = .2 + .1 * k + .05 * ((y * 2 + x * (k + 1) + k) % 3)
    return Qe(qe=q, wavelength=wl, width=w, height=h)


def pattern(kind, h, w, prnu):
    y, x = np.mgrid[:h, :w]
    if kind is None:
        return None
    v = {'rows': y % 2, 'cols': x % 3, 'mixed': (y * 3 + x * 5) % 4 - 1.,
         'hot': ((y == 0) & (x == 0)) * 1e6,
         'cold': -50. * ((y + x) % 2)}[kind]
    if prnu:
        return np.clip(1 + .1 * v, 0, 50)
    return v * 3.


def build(c, script, over=()):
    h, w = c['shape']
    p = {k: c[k] for k in sim.Model.PAR if k in c}
    p.update(height=h, width=w)
    p.update(over)
    q = qe_of(c['qe'], h, w)
    d = pattern(c['dsnu'], h, w, False)
    r = pattern(c['prnu'], h, w, True)
    env.RNG_FACTORY[0] = lambda seed, real: script
    script.real = np.random.RandomState(0)
    cam = Camera(qe=q, dsnu=None if d is None else d.copy(),
                 prnu=None if r is None else r.copy(), **p)
    env.RNG_FACTORY[0] = None
    m = sim.Model(p, cam.qe.w, cam.qe.qe, d, r)
    return cam, m


def light(kind, m):
    """radiance array that gives about this many electrons"""
    h, w = m.shape
    n = len(m.w)
    if kind == 0:
        return 0
    one = sim.photons(1., m.p['exposure'], m.p['pixel_area'], m.w,
                      m.p['f_number']).mean()
    a = np.ones((h, w, n)) * kind / one / n * 2
    y, x = np.mgrid[:h, :w]
    return a * (1 + .13 * ((y + 2 * x) % 4))[:, :, None]


DEFAULT = {'shape': (2, 3), 'bit_depth': 8, 'qe': 'three', 'exposure': 2e6,
           'K': .1, 'blackoffset': 4, 'dark_current_ref': 3000,
           'dark_signal_0': 10., 'sigma2_dark_0': 10., 'u_esat': 15000.,
           'dsnu': None, 'prnu': None, 'temperature': 22,
           'temperature_ref': 30, 'temperature_doubling': 8, 'f_number': 8,
           'pixel_area': 25, 'blackoffset_max': None}
AXES = {'shape': ((1, 1), (1, 4), (5, 1), (2, 3), (7, 6)),
        'bit_depth': (1, 7, 8, 9, 10, 12, 14, 16, 17, 24, 32, 33,
                      40, 53),
        'qe': ('mono', 'three', None, 'zero'),
        'exposure': (1, 5e5, 2e6, 3.3e9), 'K': (.1, .17, 1., 17.),
        'blackoffset': (0, 4, 1e9), 'dark_current_ref': (0, 3000, 1e6),
        'dark_signal_0': (0., 10., -25., 333.3),
        'sigma2_dark_0': (0., 2., 10., 1e4), 'u_esat': (0., 100., 15000., 1e9),
        'dsnu': (None, 'rows', 'mixed', 'hot', 'cold'),
        'prnu': (None, 'cols', 'mixed', 'hot', 'cold'),
        'temperature': (0, 22, 30, 54.5, -40),
        'temperature_ref': (0, 25, 30), 'temperature_doubling': (5, 8, 6.5),
        'f_number': (.5, 1.4, 8), 'pixel_area': (1, 25, 100.5),
        'blackoffset_max': (None, 7.5)}
LIGHT = (0, 3, 400, 1e5)
OVER = ((None, None), (0, None), (47.25, None), (None, 2.), (None, 0),
        (60, 1.4))


def run_config(case, ctx):
    script = sim.Script(sim.field(3))
    cam, m = build(case, script)
    ctx.true('settings', m.adopt(cam.K, cam.blackoffset), cam.K,
             cam.blackoffset)
    n = 0
    for li in LIGHT:
        rad = light(li, m)
        keep = np.copy(rad)
        for T, f in OVER:
            n += 1
            script.t = n
            ctx.step()
            kw = {}
            if T is not None:
                kw['temperature'] = T
            if f is not None:
                kw['f_number'] = f
            img = cam.grab(rad, **kw)
            want, ok = m.grab(script.pick, n, rad, T, f)
            sim.check_image(ctx, 'image', img, m, want, ok)
            ctx.outcome(img)
            # the override was for that image only
            if kw:
                script.t = n + 1000
                img = cam.grab(rad)
                want, ok = m.grab(script.pick, n + 1000, rad)
                sim.check_image(ctx, 'image after an override', img, m,
                                want, ok)
        ctx.eq('radiance not modified', rad, keep)
        ctx.state(case, li)


def run_draws(case, ctx):
    shape, bits, K, bo, esat, dark, pk, ek, draws = case
    n = shape[0] * shape[1]

    def pick(method, t, s):
        i = ('poisson', 'normal', 'uniform').index(method)
        return np.array(draws[i * n:i * n + n], float).reshape(s)
    script = sim.Script(pick)
    c = dict(DEFAULT, shape=shape, bit_depth=bits, K=K, blackoffset=bo,
             u_esat=esat, dark_signal_0=dark, dsnu=ek, prnu=pk,
             sigma2_dark_0=4.)
    cam, m = build(c, script)
    ctx.true('settings', m.adopt(cam.K, cam.blackoffset))
    for li in (0, 300):
        ctx.step()
        rad = light(li, m)
        img = cam.grab(rad)
        want, ok = m.grab(pick, 0, rad)
        sim.check_image(ctx, 'image', img, m, want, ok)
        ctx.outcome(img)
    ctx.state(case)


def run_real(case, ctx):
    """type and range under the real generator"""
    c, seed = case
    h, w = c['shape']
    p = {k: c[k] for k in sim.Model.PAR if k in c}
    p.update(height=h, width=w)
    cam = Camera(qe=qe_of(c['qe'], h, w), seed=seed,
                 dsnu=pattern(c['dsnu'], h, w, False),
                 prnu=pattern(c['prnu'], h, w, True), **p)
    m = sim.Model(p, cam.qe.w, cam.qe.qe)
    for li in LIGHT:
        for T, f in OVER[:4]:
            ctx.step()
            img = cam.grab(light(li, m), temperature=T, f_number=f)
            sim.check_image(ctx, 'image', img, m)
    ctx.state(case)


def run_thermal(case, ctx):
    """doubling per doubling temperature, proportional to the exposure"""
    tref, td, steps, exp, dc = case

    def pick(method, t, s):
        return np.full(s, .5 if method == 'uniform' else 0.)
    script = sim.Script(pick)
    c = dict(DEFAULT, shape=(1, 1), bit_depth=32, u_esat=1e12,
             temperature_ref=tref, temperature_doubling=td, blackoffset=0,
             dark_current_ref=dc, dark_signal_0=0., sigma2_dark_0=0.)
    cam, m = build(c, script, {'K': 1., 'K_min': 1., 'K_max': 1.,
                               'K_steps': 1})
    cam.exposure = exp
    m.exposure = exp
    for how in ('call', 'environment'):
        up = list(range(-steps, steps + 1))
        zigzag = [x for p in zip(up, up[::-1]) for x in p]
        for k in up + up[::-1] + zigzag:
            ctx.step()
            T = tref + k * td
            if how == 'call':
                img = cam.grab(0, temperature=T)
            else:
                cam.environment['temperature'] = T
                img = cam.grab(0)
            want = dc * 2. ** k * exp / 1e9
            if abs(want - np.floor(want) - .5) > 1e-6:
                ctx.close('thermal electrons', float(img[0, 0]),
                          float(np.rint(want)), 1e-9, 0)
            ctx.outcome(img)
    ctx.state(case)


def spaces(tier):
    deep = tier == 'thorough'
    cfg = list(deviations(DEFAULT, AXES, 2))
    if deep:
        ax = {k: AXES[k] for k in ('bit_depth', 'K', 'exposure', 'dsnu',
                                   'prnu', 'u_esat', 'shape',
                                   'temperature')}
        cfg += [c for c in deviations(DEFAULT, ax, 3)
                if sum(c[k] != DEFAULT[k] for k in ax) == 3]
    draws = []
    al = ((-2, 0, 3), (-3., 0., 2.5), (0., .5, .999))
    par = [((1, 1), b, K, bo, es, d, pk, ek)
           for b in (1, 8, 12) for K in (.1, 1., 17.) for bo in (0, 6)
           for es in (100., 15000.) for d in (0., 10.)
           for pk, ek in ((None, None), ('cols', 'cold'))]
    for q in par:
        for v in itertools.product(*al):
            draws.append(q + (list(v),))
    par2 = [((1, 2), 8, .5, 3, 15000., 2., 'cols', 'mixed'),
            ((2, 1), 4, .5, 3, 300., 0., None, 'rows')]
    for q in par2 if not deep else par2 + [
            ((1, 2), 10, 17., 0, 15000., 5., None, 'cold'),
            ((2, 1), 1, .1, 0, 15000., 10., 'mixed', None)]:
        for v in itertools.product(*[a for a in al for _ in range(2)]):
            draws.append(q + (list(v),))
    if deep:
        for v in itertools.product(*[a[::2] for a in al for _ in range(4)]):
            draws.append(((2, 2), 8, .5, 3, 300., 2., 'mixed', 'mixed',
                          list(v)))
    therm = [(tr, td, 4, e, dc) for tr in (30, 20.5, 0)
             for td in (8, 5, 6.5, 1) for e in (1e6, 5e8, 1e9, 123456789)
             for dc in (30, 1000, 1e6)]
    real = [(c, s) for c in deviations(DEFAULT, AXES, 1) for s in
            ((1, 2, 3) if deep else (1,))]
    big = [dict(DEFAULT, shape=s, **c)
           for s in big_shapes(deep, (1, 3), ((130, 257),))
           for c in (dict(prnu='mixed', dsnu='mixed', bit_depth=12, K=1.),
                     dict(bit_depth=16, K=17., u_esat=3000.))]
    return [Space('sensor sizes', big, run_config,
                  bound='sizes around powers of two up to %d' % (
                      4097 if deep else 1025)),
            Space('configurations', cfg, run_config,
                  bound='all pairs of deviations over 18 axes, 4 light '
                  'levels, 6 overrides'),
            Space('draws', draws, run_draws,
                  bound='every draw vector over 3-value alphabets, up to %d '
                  'pixels' % (4 if deep else 2)),
            Space('thermal', therm, run_thermal, bound='8 doublings'),
            Space('real generator', real, run_real,
                  bound='1 deviation, 4 light levels')]
