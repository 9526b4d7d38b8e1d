"""C22: camera settings"""
import itertools
import numpy as np
from ..core import Space
from .. import env, sim
from .c21 import build, DEFAULT, light
from emva1288.camera import Camera

ID = 'C22'
TECH = ('explicit-state exploration of all operation sequences on two live '
        'cameras, each replayed on the real objects and compared with a '
        'reference camera after every operation')
RULE = ('every sequence of setting, grabbing and computing operations up to '
        'a length on two cameras; every request value against every grid of '
        'available values')
ASSUME = ['of two equally near values either may be taken']


class World(object):
    def __init__(self, ctx, shape=(2, 3)):
        self.ctx = ctx
        self.cams, self.models, self.scripts = [], [], []
        self.shared = np.arange(6.).reshape(2, 3)
        for i in range(2):
            s = sim.Script(sim.field(i))
            c = dict(DEFAULT, shape=shape, bit_depth=(8, 10)[i], K=(.1, 1.)[i],
                     blackoffset=(4, 0)[i], temperature=(22, 35)[i])
            cam, m = build(c, s, {'K_min': .1, 'K_max': 2.1, 'K_steps': 5})
            # both cameras are given the same pattern
            cam.DSNU = self.shared
            m.dsnu = self.shared.copy()
            self.cams.append(cam)
            self.models.append(m)
            self.scripts.append(s)
        self.rad = light(200, self.models[0])
        self.dim = .25

    def apply(self, op):
        i, what = op[0], op[1]
        cam, m, s = self.cams[i], self.models[i], self.scripts[i]
        ctx = self.ctx
        ctx.step()
        if what == 'exposure':
            cam.exposure = op[2]
            m.exposure = op[2]
        elif what == 'K':
            cam.K = op[2]
            m.set_K(op[2])
        elif what == 'bo':
            cam.blackoffset = op[2]
            m.set_bo(op[2])
        elif what == 'temperature':
            cam.environment['temperature'] = op[2]
            m.T = op[2]
        elif what == 'f_number':
            cam.environment['f_number'] = op[2]
            m.f = op[2]
        elif what == 'environment':
            cam.environment = {'temperature': 40., 'f_number': 4.}
            m.T, m.f = 40., 4.
        elif what == 'dsnu':
            v = np.array([[0, 5, 0], [0, 0, 1e5]], float)
            cam.DSNU = v
            m.dsnu = v.copy()
        elif what == 'grab':
            s.t += 1
            rad = self.rad if op[2] else 0
            img = cam.grab(rad)
            want, ok = m.grab(s.pick, s.t, rad)
            sim.check_image(ctx, 'image', img, m, want, ok)
            ctx.outcome(img)
        elif what == 'grab over':
            s.t += 1
            img = cam.grab(self.rad, temperature=50, f_number=2)
            want, ok = m.grab(s.pick, s.t, self.rad, 50, 2)
            sim.check_image(ctx, 'image', img, m, want, ok)
        elif what == 'photons':
            got = cam.get_photons(self.rad, exposure=7e6, f_number=3)
            ctx.close('photons', got, sim.photons(
                self.rad, 7e6, m.p['pixel_area'], m.w, 3), 1e-9)
            got = cam.get_photons(self.rad)
            ctx.close('photons', got, sim.photons(
                self.rad, m.exposure, m.p['pixel_area'], m.w, m.f), 1e-9)
        elif what == 'dim':
            # the caller reuses its array for another radiance
            self.rad *= self.dim
            self.dim = 1. / self.dim
        elif what == 'radiance':
            cam.get_radiance_for(mean=100, exposure=9e6)
            cam.get_radiance_for()
        self.check(op)

    def check(self, op):
        ctx = self.ctx
        for i, (cam, m) in enumerate(zip(self.cams, self.models)):
            n = 'camera %d after %s: ' % (i, op)
            ctx.eq(n + 'exposure', float(cam.exposure), float(m.exposure))
            ctx.true(n + 'gain and black offset',
                     m.adopt(cam.K, cam.blackoffset), cam.K, cam.blackoffset,
                     m.Kc, m.bc)
            ctx.eq(n + 'temperature', float(cam.environment['temperature']),
                   float(m.T))
            ctx.eq(n + 'f-number', float(cam.environment['f_number']),
                   float(m.f))
            ctx.eq(n + 'DSNU', np.asarray(cam.DSNU, float), m.dsnu)
            ctx.close(n + 'gains', np.asarray(cam.Ks), sim.spaced(*m.kr),
                      1e-9)
            ctx.close(n + 'black offsets', np.asarray(cam.blackoffsets),
                      sim.spaced(*m.br), 1e-9, 1e-9)
            for k in ('bit_depth', 'width', 'height', 'pixel_area',
                      'exposure_min', 'exposure_max'):
                ctx.eq(n + k, float(getattr(cam, k)), float(m.p[k]))
            ctx.eq(n + 'img_max', int(cam.img_max), m.max)
        ctx.eq('pattern of the caller', self.shared,
               np.arange(6.).reshape(2, 3))

    def snapshot(self):
        return [(float(c.exposure), float(c.K), float(c.blackoffset),
                 dict(c.environment), c.DSNU) for c in self.cams]


def run_seq(case, ctx):
    w = World(ctx)
    w.check('construction')
    for op in case:
        w.apply(op)
        ctx.state(w.snapshot())
    # finally an image of every camera
    for i in (0, 1):
        w.apply((i, 'grab', 1))


def run_grid(case, ctx):
    lo, hi, n, v, what = case
    kw = {'K_min': lo, 'K_max': hi, 'K_steps': n, 'K': v} if what == 'K' \
        else {'blackoffset_min': lo, 'blackoffset_max': hi,
              'blackoffset_steps': n, 'blackoffset': v}
    near = sim.nearest(v, lo, hi, n)
    cam = Camera(width=2, height=1, **kw)
    values = cam.Ks if what == 'K' else cam.blackoffsets
    ctx.close('available', np.asarray(values), sim.spaced(lo, hi, n), 1e-9,
              1e-9)

    def now():
        return float(cam.K if what == 'K' else cam.blackoffset)

    def ok(label, cand):
        ctx.step()
        ctx.true(label, min(abs(now() - c) for c in cand) <=
                 1e-9 * max(1, abs(hi)), now(), cand)
        ctx.true(label + ' is available', now() in [float(x) for x in
                                                    values])
    ok('constructor', near)
    for req in (hi + 10, v, lo - 10, v, (lo + hi) / 2., v):
        setattr(cam, 'K' if what == 'K' else 'blackoffset', req)
        ok('request %r' % req, sim.nearest(req, lo, hi, n))
    x = now()
    setattr(cam, 'K' if what == 'K' else 'blackoffset', x)
    ctx.eq('setting the reported value', now(), x)
    ctx.outcome(now())
    ctx.state(case)


def spaces(tier):
    deep = tier == 'thorough'
    ops = [('exposure', 1e6), ('exposure', 3e9), ('K', .5), ('K', 1.),
           ('K', 50), ('K', -1), ('bo', 0), ('bo', 7.3), ('bo', 1e6),
           ('temperature', 0), ('temperature', 54), ('f_number', 1.4),
           ('environment',), ('dsnu',), ('grab', 0), ('grab', 1),
           ('grab over',), ('photons',), ('radiance',), ('dim',)]
    ops2 = [(i,) + o for i in (0, 1) for o in ops]
    seqs = []
    for n in (1, 2):
        seqs += list(itertools.product(ops2, repeat=n))
    few = [o for o in ops if o not in (('K', -1), ('bo', 0), ('photons',))]
    seqs += [((0,) + a, (0,) + b, (0,) + c)
             for a, b, c in itertools.product(few, repeat=3)]
    mid = [('exposure', 3e9), ('K', 1.), ('bo', 7.3), ('environment',),
           ('dsnu',), ('grab', 1), ('radiance',), ('dim',)]
    mid2 = [(i,) + o for i in (0, 1) for o in mid]
    if deep:
        seqs += list(itertools.product(ops2, repeat=3))
        seqs += list(itertools.product(mid2, repeat=4))
    else:
        seqs += list(itertools.product(mid2, repeat=3))
    grids = []
    for lo, hi in ((.1, 17.), (0, 15), (1, 2), (0., 1e4), (-5, 5), (-3, 0), (0, 0)):
        for n in (1, 2, 3, 5, 255, 256):
            vals = {lo, hi, lo - 1, hi + 1, (lo + hi) / 2., lo + (hi - lo) / 3}
            g = sim.spaced(lo, hi, n)
            for i in sorted({0, 1, n // 2, n - 2}):
                if 0 <= i < n - 1:
                    d = g[i + 1] - g[i]
                    vals |= {g[i] + d * q for q in
                             (.25, .49, .499999, .5, .500001, .51, .75)}
            for v in sorted(vals):
                for what in ('K', 'bo'):
                    grids.append((lo, hi, n, v, what))
    return [Space('operation sequences', seqs, run_seq,
                  bound='all sequences of 2 operations on 2 cameras over %d '
                  'operations, 3 on %s%s' %
                  (len(ops2), 'two' if deep else 'one',
                   ', 4 over %d' % len(mid2) if deep else '')),
            Space('available values', grids, run_grid,
                  bound='14 grids sizes and ranges, requests at and around '
                  'every kind of boundary')]
