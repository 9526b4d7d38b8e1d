"""C26: test points"""
import itertools
import numpy as np
from ..core import Space
from ..util import deviations
from .. import sim
from .. import env
from .c21 import build, qe_of, DEFAULT as CAM
from emva1288.camera import Camera
from emva1288.camera.dataset_generator import DatasetGenerator
from emva1288.camera.points_generator import PointsGenerator

ID = 'C26'
TECH = ('exhaustive enumeration of configurations and of sequences of '
        'generators on one camera, executed on the real code with a scripted '
        'random generator and compared with a reference')
RULE = ('every combination of caller arguments within a number of deviations '
        'and over all step counts, on several cameras; every ordered pair '
        'of generators on the same camera')
ASSUME = ['limits not negative and minimum below maximum',
          'the automatic minimum radiance is only required to lie between '
          'darkness and the maximum']

CAMS = [dict(CAM, qe='three', dark_current_ref=30),
        dict(CAM, qe='mono', bit_depth=12, K=1., blackoffset=20, dark_current_ref=30,
             shape=(1, 2)),
        dict(CAM, qe=None, bit_depth=16, K=17., temperature=45,
             dark_current_ref=500, f_number=2, shape=(3, 1))]
LIMITS = [(5e5, 5e8), (1e6, 2e6), (12345.6, 98765.4)]


def camera(ci, li):
    s = sim.Script(sim.field(ci))
    lo, hi = LIMITS[li]
    return build(CAMS[ci], s, {'exposure_min': lo, 'exposure_max': hi})


def arrays(rads, m):
    out = []
    for r in rads:
        r = np.asarray(r, float)
        out.append(np.broadcast_to(r, m.shape + (len(m.w),)))
    return out


def middle(v, n):
    return v[n // 2]


def rad_arg(v, m):
    """the caller may pass a number or an array"""
    if isinstance(v, (list, tuple)):
        y, x, k = np.mgrid[:m.shape[0], :m.shape[1], :len(m.w)]
        a = v[1] * (1 + .5 * ((y + x + k) % 2))
        return a, float(a.mean())
    return v, v


def generate(ctx, cam, m, g):
    kw = {k: v for k, v in g.items() if v is not None and k != 'steps'}
    want = {}
    for k in ('radiance_min', 'radiance_max'):
        if k in kw:
            kw[k], want[k] = rad_arg(kw[k], m)
    keep = {k: np.copy(v) for k, v in kw.items()}
    ctx.step()
    p = PointsGenerator(cam, steps=g['steps'], **kw)
    for k in keep:
        ctx.eq('argument ' + k, np.asarray(kw[k]), keep[k])
    if g.get('gain') is not None:
        m.set_K(g['gain'])
    if g.get('blackref') is not None:
        m.set_bo(g['blackref'])
    ctx.true('gain and black level', m.adopt(cam.K, cam.blackoffset), cam.K,
             cam.blackoffset, m.Kc, m.bc)
    return p, check_points(ctx, p.points, m, g, want, lambda: p.points)


def check_points(ctx, pts, m, g, want, again):
    ctx.eq('kinds', sorted(pts), ['spatial', 'temporal'])
    n = g['steps']
    sp = [(float(k), arrays(v, m)) for k, v in pts['spatial'].items()]
    te = [(float(k), arrays(v, m)) for k, v in pts['temporal'].items()]
    fixed = g.get('exposure_fixed')
    if fixed is None:
        lo, hi = g.get('exposure_min'), g.get('exposure_max')
        lo = m.p['exposure_min'] if lo is None else lo
        hi = m.p['exposure_max'] if hi is None else hi
        want_t = [round(v * 10) / 10. for v in sim.spaced(lo, hi, n)]
        ctx.close('exposure times', [k for k, _ in te], want_t, 1e-12, .11)
        for k, _ in te:
            ctx.close('rounded to 0.1 ns', k * 10, float(round(k * 10)),
                      1e-12, 1e-4)
        m.exposure = hi
        bright = None
        for k, rs in te + sp:
            ctx.eq('two radiances', len(rs), 2)
            dark = [r for r in rs if not r.any()]
            ctx.eq('one dark radiance', len(dark), 1)
            b = [r for r in rs if r.any()][0]
            ctx.true('radiance not negative', b.min() >= 0)
            ctx.close('saturates at the longest exposure', float(
                m.K * (m.light(b).mean() + m.thermal(exposure=hi))),
                float(m.max), 1e-9)
            if bright is None:
                bright = b
            ctx.close('the same radiance everywhere', b, bright, 1e-12)
        ctx.eq('one spatial exposure', [k for k, _ in sp],
               [te[n // 2][0]])
    else:
        ctx.eq('one exposure', [len(te), len(sp)], [1, 1])
        for k, _ in te + sp:
            ctx.true('at that exposure', abs(k - fixed) <= .5, k, fixed)
        rs = te[0][1]
        ctx.eq('radiances', len(rs), n + 1)
        dark = [i for i, r in enumerate(rs) if not r.any()]
        # a measurement can start in darkness
        zero = 'radiance_min' in want and want['radiance_min'] == 0
        ctx.eq('one dark radiance', len(dark), 1 + zero)
        b = [r for i, r in enumerate(rs) if i != dark[-1]]
        for r in b:
            ctx.close('uniform radiance', r, np.full(r.shape, r.flat[0]),
                      1e-12)
        v = [float(r.flat[0]) for r in b]
        m.exposure = fixed
        if 'radiance_min' in want:
            lo = want['radiance_min']
        else:
            lo = v[0]
            ctx.true('automatic minimum above darkness', lo > 0)
        if 'radiance_max' in want:
            hi = want['radiance_max']
        else:
            hi = float(np.mean(m_saturating(m, fixed)))
            if n > 1:
                ctx.true('automatic minimum below the maximum',
                         'radiance_min' in want or lo < hi)
        ctx.close('radiances', v, sim.spaced(lo, hi, n), 1e-9)
        rs = sp[0][1]
        ctx.eq('two spatial radiances', len(rs), 2)
        bright = [r for r in rs if r.any()]
        if b[n // 2].any():
            ctx.eq('one of them dark', len(bright), 1)
            ctx.close('middle radiance', bright[0], b[n // 2], 1e-12)
        else:
            ctx.eq('the middle step is dark', len(bright), 0)
    ctx.eq('points again', [list(map(float, again()[k])) for k in
                            ('spatial', 'temporal')],
           [[k for k, _ in sp], [k for k, _ in te]])
    ctx.outcome([k for k, _ in te], [r.mean() for r in te[0][1]])
    return sp, te


def run_dataset(case, ctx):
    """the same through the dataset generator"""
    ci, g = case
    c = CAMS[ci]
    h, w = c['shape']
    par = {k: c[k] for k in sim.Model.PAR if k in c}
    par.update(width=w, height=h, exposure_min=g['exposure_min'] or 5e5,
               exposure_max=g['exposure_max'] or 5e6)
    if g['gain'] is not None:
        par['K'] = g['gain']
    if g['blackref'] is not None:
        par['blackoffset'] = g['blackref']
    qe = qe_of(c['qe'], h, w)
    kw = dict(par)
    if qe is not None:
        kw['qe'] = qe
    ref = sim.Model(par, qe.w, qe.qe) if qe is not None else \
        sim.Model(par, *(lambda q: (q.w, q.qe))(Camera(width=w,
                                                       height=h).qe))
    want = {}
    for k in ('radiance_min', 'radiance_max', 'exposure_fixed'):
        if g[k] is not None:
            kw[k] = g[k]
    for k in ('radiance_min', 'radiance_max'):
        if k in kw:
            kw[k], want[k] = rad_arg(kw[k], ref)
    s = sim.Script(sim.field(ci))
    s.real = np.random.RandomState(0)
    env.RNG_FACTORY[0] = lambda seed, real: s
    ctx.step()
    try:
        d = DatasetGenerator(steps=g['steps'], L=3, outdir=ctx.tmp, **kw)
    finally:
        env.RNG_FACTORY[0] = None
    ref.adopt(d.cam.K, d.cam.blackoffset)
    check_points(ctx, d.points, ref, dict(g, exposure_min=None,
                                          exposure_max=None), want,
                 lambda: d.points)
    ctx.state(case)


def m_saturating(m, exposure):
    """equal photons at every wavelength, full scale on average"""
    e = (m.max / m.K - m.thermal(exposure=exposure)) / len(m.w)
    return (e / m.qe.mean()) / sim.photons(1., exposure, m.p['pixel_area'],
                                           m.w, m.f)


def run(case, ctx):
    ci, li, gens = case
    cam, m = camera(ci, li)
    done = []
    for g in gens:
        done.append(generate(ctx, cam, m, g))
        ctx.state(ci, li, gens[:len(done)])
    for p, (sp, te) in done:
        for kind, want in (('spatial', sp), ('temporal', te)):
            got = [(float(k), arrays(v, m)) for k, v in
                   p.points[kind].items()]
            ctx.eq('points stay', got, want)


DEF = {'steps': 5, 'exposure_min': None, 'exposure_max': None,
       'exposure_fixed': None, 'radiance_min': None, 'radiance_max': None,
       'gain': None, 'blackref': None}
AX = {'exposure_min': (None, 1.5e5, 600000.04, 0),
      'exposure_max': (None, 3e6, 7777777.77),
      'exposure_fixed': (None, 1e6, 2345678, 999999.6),
      'radiance_min': (None, 0, 1e-4, 2e4, ('array', 1e3)),
      'radiance_max': (None, 3e9, 10 ** 9, ('array', 2e10)),
      'gain': (None, .1, 5., 0), 'blackref': (None, 0, 3.3, 1e6)}


def spaces(tier):
    deep = tier == 'thorough'
    cfg = []
    for ci in range(3):
        for li in range(3):
            for n in range(1, 13 if deep else 8):
                for d in deviations(DEF, AX, 3 if deep else 2):
                    if not deep and ci and li:
                        continue
                    lo = LIMITS[li][0] if d['exposure_min'] is None else \
                        d['exposure_min']
                    hi = d['exposure_max'] or LIMITS[li][1]
                    if lo >= hi:
                        continue
                    cfg.append((ci, li, [dict(d, steps=n)]))
    for n in (50, 100, 101, 255):
        for d in ({}, {'exposure_fixed': 1e6}):
            cfg.append((0, 0, [dict(DEF, steps=n, **d)]))
    # every pair of limits given together
    for d in deviations(DEF, {k: AX[k] for k in (
            'exposure_fixed', 'radiance_min', 'radiance_max', 'gain')}, 4):
        for ci in range(3):
            cfg.append((ci, 0, [d]))
    ds = []
    for ci in (0, 2):
        for n in (1, 2, 3, 6) + ((7, 10) if deep else ()):
            for d in deviations(DEF, {k: AX[k] for k in AX if k not in (
                    'blackref',)}, 3 if deep else 2):
                if d['exposure_min'] == 0:
                    # no light at all: not a dataset
                    continue
                if (d['exposure_min'] or 5e5) >= (d['exposure_max'] or 5e6):
                    continue
                ds.append((ci, dict(d, steps=n)))
    alone = [dict(DEF, **{k: v}) for k in AX for v in AX[k] if v is not None]
    alone += [dict(DEF, exposure_fixed=1e6, **{k: AX[k][1]})
              for k in ('radiance_min', 'radiance_max', 'gain')]
    alone += [DEF, dict(DEF, steps=2), dict(DEF, steps=6)]
    seq = [(ci, 0, [a, b]) for a in alone for b in alone
           for ci in ((0, 1, 2) if deep else (0,))]
    if deep:
        few = alone[::3]
        seq += [(0, 0, [a, b, c]) for a, b, c in
                itertools.product(few, repeat=3)]
    return [Space('arguments', cfg, run,
                  bound='up to %d deviations, steps 1 to %d, 3 cameras'
                  % (3 if deep else 2, 12 if deep else 7)),
            Space('datasets', ds, run_dataset,
                  bound='up to %d deviations, %d step counts, 2 cameras'
                  % (3 if deep else 2, 6 if deep else 4)),
            Space('histories', seq, run,
                  bound='all pairs%s of %d generators on one camera'
                  % (' and triples' if deep else '', len(alone)))]
