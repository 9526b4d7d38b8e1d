"""C24: radiance and photons"""
import itertools
import math
import numpy as np
from ..core import Space
from ..util import deviations
from .. import sim
from .c21 import qe_of, pattern
from emva1288.camera import Camera
from emva1288.camera import routines

ID = 'C24'
RULE = ('every combination of exposure, pixel area, f-number, wavelength '
        '(scalar and vector) and radiance (scalar, array, broadcast); every '
        'pair of scalings; every camera configuration and history of setting '
        'changes before asking for a radiance; against the formula and the '
        'forward model')
ASSUME = ['target means above the thermal signal', 'relative tolerance '
          '1e-9']


def shaped(kind, n):
    """a radiance of this shape for n wavelengths"""
    if kind == 'scalar':
        return 1.7e-3
    if kind == 'int':
        return 3
    if kind == 'vector':
        return np.linspace(0, 2e-3, n)
    if kind == 'image':
        y, x, k = np.mgrid[:3, :4, :n]
        return 1e-3 * ((y * 5 + x * 3 + k) % 7)
    return np.zeros((2, 2, n))


def run_formula(case, ctx):
    t, a, f, w, kind = case
    w = np.array(w, float) if isinstance(w, (list, tuple)) else float(w)
    n = np.size(w)
    r = shaped(kind, n)
    keep, kw = np.copy(r), np.copy(w)
    ctx.step(2)
    p = routines.get_photons(t, r, a, w, f)
    ctx.close('photons', np.asarray(p, float),
              np.asarray(sim.photons(r, t, a, w, f)), 1e-9)
    back = routines.get_radiance(t, p, a, f, w)
    ctx.close('radiance of the photons', np.asarray(back, float),
              np.asarray(r, float) + np.zeros(np.shape(p)), 1e-9)
    q = routines.get_radiance(t, r, a, f, w)
    again = routines.get_photons(t, q, a, w, f)
    ctx.close('photons of the radiance', np.asarray(again, float),
              np.asarray(r, float) + np.zeros(np.shape(q)), 1e-9)
    for s in (0, .5, 3, 1e6):
        ctx.close('linear in radiance',
                  routines.get_photons(t, s * r, a, w, f), s * p, 1e-9)
        if s:
            ctx.close('linear in exposure',
                      routines.get_photons(t * s, r, a, w, f), s * p, 1e-9)
            ctx.close('linear in area',
                      routines.get_photons(t, r, a * s, w, f), s * p, 1e-9)
            ctx.close('inverse in exposure',
                      routines.get_radiance(t * s, r, a, f, w), q / s, 1e-9)
    if np.ndim(r):
        ctx.close('additive', routines.get_photons(t, r + 2 * r[::-1], a, w,
                                                   f) if np.ndim(r) == 3
                  else routines.get_photons(t, 3 * r, a, w, f),
                  p + 2 * p[::-1] if np.ndim(r) == 3 else 3 * p, 1e-9)
    ctx.eq('inputs unmodified', [r, w], [keep, kw])
    ctx.state(case)
    ctx.outcome(np.sum(p))


DEFAULT = {'qe': 'three', 'exposure': 2e6, 'K': .5, 'temperature': 22,
           'dark': 30, 'f_number': 8, 'pixel_area': 25, 'bit_depth': 12,
           'mean': None, 'at': None, 'shape': (2, 3), 'set': None,
           'blackoffset': 0}
AXES = {'qe': ('mono', 'three', None), 'exposure': (1e3, 2e6, 5e8),
        'K': (.1, .5, 1., 17.), 'temperature': (0, 22, 46),
        'dark': (0, 30, 2000), 'f_number': (.5, 1.4, 8),
        'pixel_area': (1, 25, 100.5), 'bit_depth': (8, 12, 16),
        'mean': (None, 1, 50.5, 250, 'full', 100, 0), 'at': (None, 1e3, 7e6,
                                                          5e8, 3e9),
        'shape': ((1, 1), (2, 3), (5, 4)), 'blackoffset': (0, 100),
        'set': (None, 'exposure', 'K', 'temperature', 'f_number', 'grab',
                'ask')}


def run_camera(case, ctx):
    h, w = case['shape']
    p = dict(exposure=case['exposure'], K=case['K'], bit_depth=case[
        'bit_depth'], temperature=case['temperature'], height=h, width=w,
        dark_current_ref=case['dark'], f_number=case['f_number'],
        pixel_area=case['pixel_area'], blackoffset=case['blackoffset'])
    cam = Camera(qe=qe_of(case['qe'], h, w), seed=3, **p)
    m = sim.Model(p, cam.qe.w, cam.qe.qe)
    s = case['set']
    if s == 'exposure':
        cam.exposure = m.exposure = 3.3e6
    elif s == 'K':
        cam.K = 5.
        m.set_K(5.)
    elif s == 'temperature':
        cam.environment['temperature'] = m.T = 33.
    elif s == 'f_number':
        cam.environment['f_number'] = m.f = 2.
    elif s == 'grab':
        cam.grab(0, temperature=60, f_number=3)
    elif s == 'ask':
        cam.get_radiance_for(mean=3, exposure=1e6)
        cam.get_radiance_for()
    m.adopt(cam.K, cam.blackoffset)
    mean = m.max if case['mean'] == 'full' else case['mean']
    kw = {}
    if mean is not None:
        kw['mean'] = mean
    if case['at'] is not None:
        kw['exposure'] = case['at']
    texp = m.exposure if case['at'] is None else case['at']
    target = m.max if mean is None else mean
    th = m.thermal(exposure=texp)
    if th * m.K >= .98 * target and (target or th):
        return
    ctx.step()
    r = np.asarray(cam.get_radiance_for(**kw))
    ctx.eq('one radiance per pixel and wavelength', list(r.shape),
           [h, w, len(m.w)])
    ctx.true('radiance not negative', r.min() >= 0)
    # forward: light electrons of this radiance at this exposure
    m.exposure = texp
    e = m.light(r)
    ctx.close('mean of light and thermal electrons',
              float(m.K * (e.mean() + th)), float(target), 1e-9)
    # the camera's own conversion agrees
    ph = cam.get_photons(r, exposure=texp)
    ctx.close('photons of the camera', np.asarray(ph),
              sim.photons(r, texp, m.p['pixel_area'], m.w, m.f), 1e-9)
    got = cam.get_photons(r, exposure=texp, f_number=3.)
    ctx.close('photons at another f-number', np.asarray(got),
              sim.photons(r, texp, m.p['pixel_area'], m.w, 3.), 1e-9)
    if case['qe'] == 'mono':
        ctx.close('uniform', r, np.full(r.shape, r.flat[0]), 1e-9)
    ctx.eq('asking again', np.asarray(cam.get_radiance_for(**kw)), r)
    ctx.state(case)
    ctx.outcome(r.mean())


def run_default(case, ctx):
    """camera defaults: exposure and f-number of the camera are used"""
    exp, f, T = case
    cam = Camera(width=2, height=2, qe=qe_of('three', 2, 2))
    m = sim.Model(dict(width=2, height=2), cam.qe.w, cam.qe.qe)
    cam.exposure = exp
    cam.environment['f_number'] = f
    cam.environment['temperature'] = T
    m.exposure, m.f, m.T = exp, f, T
    m.adopt(cam.K, cam.blackoffset)
    r = shaped('image', 3)[:2, :2]
    ctx.step(2)
    ctx.close('photons', cam.get_photons(r),
              sim.photons(r, exp, 25, m.w, f), 1e-9)
    for t in (1e7, 0, 1., 500., 5e8, 2e9, 1e12):   # also beyond the limits
        ctx.close('photons over the exposure',
                  cam.get_photons(r, exposure=t),
                  sim.photons(r, t, 25, m.w, f), 1e-9)
    for g in (0, .1, 1, 16, 1e3):
        ctx.close('photons at the f-number', cam.get_photons(r, f_number=g),
                  sim.photons(r, exp, 25, m.w, g), 1e-9)
    rr = cam.get_radiance_for()
    ctx.close('full scale', float(m.K * (m.light(rr).mean() + m.thermal())),
              float(m.max), 1e-9)
    ctx.state(case)


def run_history(case, ctx):
    """conversions one after the other"""
    for c in case:
        run_formula(c, ctx)


def spaces(tier):
    deep = tier == 'thorough'
    ts = (1, 1e3, 5e5, 1e6, 5e8, 1e10)
    As = (.5, 1, 25, 100.5, 1e4)
    fs = (0, .5, 1.4, 2, 8, 32)
    ws = (1., 400., 550, 1100., (550.,), (400., 800.), (400., 550.5, 700.))
    ks = ('scalar', 'int', 'vector', 'image', 'zero')
    form = [(t, a, f, w, k) for t, a, f, w, k in
            itertools.product(ts, As, fs, ws, ks)
            if not (isinstance(w, (int, float)) and k == 'vector')]
    cfg = list(deviations(DEFAULT, AXES, 4 if deep else 3))
    dft = list(itertools.product((1e3, 1e6, 3.3e7), (.5, 2, 8, 11.),
                                 (0, 22, 40, 60)))
    calls = [(t, a, f, w, k) for t in (1e3, 1e6) for a in (1, 25)
             for f in (2, 8) for w in ((400., 800.), (500., 600.), 550)
             for k in ('image', 'scalar')]
    hist = list(itertools.product(calls, repeat=2))
    return [Space('histories', hist, run_history,
                  bound='all pairs of %d calls' % len(calls)),
            Space('formula', form, run_formula,
                  bound='all combinations of 6 x 5 x 6 x 7 x 5 values'),
            Space('camera', cfg, run_camera,
                  bound='up to %d deviations, 13 axes' % (4 if deep else 3)),
            Space('environment', dft, run_default, bound='48 combinations')]
