"""C28: generated datasets on disk"""
import gc
import itertools
import os
import numpy as np
from PIL import Image
from ..core import Space, digest
from ..util import deviations
from .. import env, ref, sim
from .c21 import qe_of
from emva1288.camera import Camera
from emva1288.camera.dataset_generator import DatasetGenerator
from emva1288.process import ParseEmvaDescriptorFile, LoadImageData

ID = 'C28'
TECH = ('exhaustive enumeration of generator configurations, pixel contents '
        'and lifetimes on the real code, every grabbed image recorded at the '
        'camera and compared with the files')
RULE = ('every generator configuration within a number of deviations; every '
        'small image over extreme pixel values for every bit depth and '
        'format; every order of creating and dropping generators')
ASSUME = ['more than two images per spatial point, photon counts distinct at '
          'three decimals, as the descriptor format needs',
          'bright points have light: with a minimum radiance of zero the first '
          'bright point is a second dark one, which no descriptor can hold',
          'formats: PNG, TIFF and PGM for every depth, BMP for 8 bit']


class Recorder(object):
    """records (and may replace) the images of every camera"""

    def __init__(self, images=None):
        self.log = []
        self.images = images

    def __enter__(self):
        self.orig = Camera.grab
        rec, orig = self, self.orig

        def grab(cam, radiance, *a, **k):
            img = orig(cam, radiance, *a, **k)
            if rec.images is not None:
                new = rec.images(len(rec.log), img)
                if new is not None:
                    img = new
            rec.log.append((cam, float(cam.exposure), float(cam.K),
                            float(cam.blackoffset),
                            np.array(radiance, float), img.copy()))
            return img
        Camera.grab = grab
        return self

    def __exit__(self, *a):
        Camera.grab = self.orig


def read(path):
    """independent descriptor reader -> (lines v, n, series)"""
    v = n = None
    series = []
    with open(path) as f:
        for ln in f:
            p = ln.split()
            if not p or p[0].startswith('#'):
                continue
            if p[0] == 'v':
                v = p[1:]
            elif p[0] == 'n':
                n = [int(x) for x in p[1:]]
            elif p[0] in 'bd':
                series.append((float(p[1].replace(',', '.')),
                               float(p[2].replace(',', '.'))
                               if p[0] == 'b' else 0., []))
            elif p[0] == 'i':
                series[-1][2].append(p[1].replace('\\', os.sep))
    return v, n, series


def photons_of(cam, m, exposure, rad):
    r = np.zeros(m.shape + (len(m.w),)) + rad
    return float(sim.photons(r, exposure, m.p['pixel_area'], m.w,
                             m.f).sum(axis=2).mean())


def pixels(path):
    with Image.open(path) as im:
        return np.array(im).astype(np.int64)


def verify(ctx, d, rec, c, L):
    cam = d.cam
    h, w = c['shape']
    p = dict(width=w, height=h)
    if 'area' in c:
        p['pixel_area'] = c['area']
    m = sim.Model(p, cam.qe.w, cam.qe.qe)
    m.f = cam.environment['f_number']
    v, n, series = read(d.descriptor_path)
    root = os.path.dirname(d.descriptor_path)
    ctx.eq('version', v, [c['version']])
    ctx.eq('image format', n, [c['bit_depth'], w, h])
    ctx.true('descriptor in the output directory',
             os.path.realpath(root) == os.path.realpath(d.outdir))
    # what should be there
    want = []
    for kind, k in (('temporal', 2), ('spatial', L)):
        for texp, rads in d.points[kind].items():
            for r in rads:
                dark = not np.any(r)
                want.append((round(float(texp), 1), 0. if dark else
                             photons_of(cam, m, float(texp), r), k))
    have = sorted((t, p, len(f)) for t, p, f in series)
    want.sort()
    ctx.eq('number of series', len(have), len(want))
    for a, b in zip(have, want):
        ctx.close('exposure time', a[0], b[0], 1e-12, .051)
        ctx.close('photons', a[1], b[1], 1e-9, .00051)
        ctx.eq('images', a[2], b[2])
    # files: every file is a grab of its own, made with these settings
    mine = [g for g in rec.log if g[0] is cam]
    used = set()
    names = set()
    content = {}
    for t, p, files in series:
        for f in files:
            path = os.path.join(root, f)
            ctx.true('no image twice', f not in names, f)
            names.add(f)
            img = pixels(path)
            content[f] = img
            ctx.eq('shape of ' + f, list(img.shape), [h, w])
            hit = None
            for i, g in enumerate(mine):
                if i in used or not np.array_equal(g[5], img):
                    continue
                if abs(g[1] - t) > .06 or \
                        abs(photons_of(cam, m, g[1], g[4]) - p) > .00051 + \
                        1e-9 * p:
                    continue
                if abs(g[2] - float(cam.K)) + \
                        abs(g[3] - float(cam.blackoffset)) > 1e-9:
                    continue
                hit = i
                break
            ctx.true('pixels of %s are those grabbed' % f, hit is not None)
            used.add(hit)
    ondisk = set()
    for dp, _dn, fn in os.walk(root):
        for f in fn:
            ondisk.add(os.path.relpath(os.path.join(dp, f), root))
    ctx.eq('files on disk', ondisk - {os.path.relpath(d.descriptor_path,
                                                      root)}, names)
    # parse and load
    info = ParseEmvaDescriptorFile(d.descriptor_path)
    ctx.eq('parsed format', {k: int(x) for k, x in info.format.items()},
           {'bits': c['bit_depth'], 'width': w, 'height': h})
    img = LoadImageData(info.images)
    data = img.data
    for t, p, files in series:
        st = [content[f] for f in files]
        kind = 'temporal' if len(files) == 2 else 'spatial'
        e = data[kind][t][p]
        r = ref.reduce_pair(st) if kind == 'temporal' else \
            ref.reduce_stack(st)
        for k in r:
            ctx.close('loaded %s %s' % (kind, k), np.asarray(e[k]),
                      np.asarray(r[k]), 0, 1e-6 if k == 'dmean' else 0)
    ctx.eq('loaded size', [int(data['height']), int(data['width'])], [h, w])
    return content


DEF = {'steps': 3, 'L': 3, 'image_format': 'png', 'shape': (3, 4),
       'bit_depth': 8, 'K': 1., 'blackoffset': 5, 'exposure_fixed': None,
       'version': '4.0', 'qe': 'three', 'dark_current_ref': 30,
       'exposure_min': 5e5, 'exposure_max': 5e6, 'radiance': None,
       'seed': 5, 'outdir': 'sub dir/d', 'f_number': 8}
AX = {'steps': (2, 3, 4, 7), 'L': (3, 4, 6),
      'image_format': ('png', 'tif', 'tiff', 'pgm', 'bmp'),
      'shape': ((1, 1), (1, 5), (4, 1), (3, 4), (16, 9)),
      'bit_depth': (1, 4, 8, 9, 10, 12, 14, 15, 16), 'K': (1., 17., 'auto'),
      'blackoffset': (5, 'auto', 0), 'exposure_fixed': (None, 1e6, 777777.7),
      'version': ('4.0', '3.1'), 'qe': ('mono', 'three'),
      'dark_current_ref': (30, 1000), 'exposure_min': (5e5, 123.4),
      'exposure_max': (5e6, 1e9), 'radiance': (None, (1e3, 1e9)),
      'seed': (0, 5), 'outdir': ('sub dir/d', None), 'f_number': (8, 2.)}


def start(ctx, c, tmp):
    h, w = c['shape']
    kw = {k: v for k, v in c.items() if v != 'auto' and k not in (
        'shape', 'radiance', 'qe', 'outdir', 'area')}
    if 'area' in c:
        kw['pixel_area'] = c['area']
    kw.update(width=w, height=h, qe=qe_of(c['qe'], h, w))
    if c['radiance'] and c['exposure_fixed']:
        kw['radiance_min'], kw['radiance_max'] = c['radiance']
    if c['outdir']:
        kw['outdir'] = os.path.join(tmp, c['outdir'])
    ctx.step()
    return DatasetGenerator(**kw)


def valid(c):
    # few grey levels: the automatic radiances would coincide
    return (c['bit_depth'] <= 8 or c['image_format'] != 'bmp') and \
        (c['bit_depth'] >= 8 or not c['exposure_fixed']) and \
        measurable(c)


def measurable(c):
    """full scale is reachable and the shortest exposure sees light"""
    K = 17. if c['K'] == 'auto' else c['K']
    e = (2 ** c['bit_depth'] - 1) / K
    th = c['dark_current_ref'] * .5 * c['exposure_max'] / 1e9
    return th < .8 * e and (e - th) * c['exposure_min'] / \
        c['exposure_max'] > .01


def run_config(case, ctx):
    with Recorder() as rec:
        d = start(ctx, case, ctx.tmp)
        content = verify(ctx, d, rec, case, case['L'])
    out = d.outdir
    del d, rec
    gc.collect()
    ctx.eq('kept' if case['outdir'] else 'removed',
           os.path.exists(out), bool(case['outdir']))
    ctx.state(case)
    ctx.outcome(content)


def run_pixels(case, ctx):
    """the camera produces enumerated images"""
    bits, fmt, al, lo, shape = case
    n = shape[0] * shape[1]
    seq = itertools.islice(itertools.product(al, repeat=n), lo, lo + 24)
    images = [np.array(v).reshape(shape) for v in seq]

    def give(i, img):
        return images[i % len(images)].astype(img.dtype)
    c = dict(DEF, bit_depth=bits, image_format=fmt, shape=shape, L=4,
             steps=2)
    with Recorder(give) as rec:
        d = start(ctx, c, ctx.tmp)
        verify(ctx, d, rec, c, 4)
    ctx.state(case)
    for i in images:
        ctx.outcome(bits, fmt, i)


def run_life(case, ctx):
    """create and drop generators in every order"""
    live, gone = {}, {}
    for n, (op, i) in enumerate(case):
        ctx.step()
        if op == 'make':
            c = dict(DEF, shape=(2, 2), steps=2, seed=i,
                     outdir='out%d' % i if i == 2 else None)
            live[i] = start(ctx, c, ctx.tmp)
            gone[i] = live[i].outdir
        else:
            del live[i]
            gc.collect()
        for j, p in gone.items():
            ctx.eq('generator %d, step %d: dataset exists' % (j, n),
                   os.path.exists(os.path.join(
                       p, os.path.basename('EMVA1288descriptor.txt'))
                       if j in live else p), j in live or j == 2)
        for j in live:
            info = ParseEmvaDescriptorFile(live[j].descriptor_path)
            LoadImageData(info.images)
        ctx.state(sorted(live), sorted(gone))
    if 2 in gone:
        v, nn, series = read(os.path.join(gone[2], 'EMVA1288descriptor.txt'))
        for _t, _p, files in series:
            for f in files:
                pixels(os.path.join(gone[2], f))


def orders(ids):
    """all sequences of make / drop of these ids, each made once"""
    out = []

    def rec(seq, made, live):
        if seq:
            out.append(list(seq))
        for i in ids:
            if i not in made:
                rec(seq + [('make', i)], made | {i}, live | {i})
            elif i in live:
                rec(seq + [('drop', i)], made, live - {i})
    rec([], frozenset(), frozenset())
    return [s for s in out if len(s) == 2 * len(ids) or
            len(s) == 2 * len(ids) - 1]


def spaces(tier):
    deep = tier == 'thorough'
    cfg = [c for c in deviations(DEF, AX, 2) if valid(c)]
    if deep:
        ax = {k: AX[k] for k in ('steps', 'L', 'image_format', 'bit_depth',
                                 'exposure_fixed', 'K', 'shape',
                                 'radiance')}
        cfg += [c for c in deviations(DEF, ax, 3) if valid(c) and
                sum(c[k] != DEF[k] for k in ax) == 3]
    sizes = []
    for n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513) + \
            ((1023, 1025, 2049) if deep else ()):
        for i, s in enumerate(((n, 5), (5, n))):
            sizes.append(dict(DEF, shape=s, steps=2, bit_depth=(8, 12, 16)[
                n % 3], image_format=('png', 'tif', 'pgm')[(n // 2 + i) % 3]))
    sizes += [dict(DEF, shape=(300, 517), steps=2, bit_depth=b,
                   image_format=f) for b, f in
              ((8, 'png'), (16, 'tif'), (12, 'pgm'))]
    px = []
    for bits in range(1, 17):
        mx = 2 ** bits - 1
        al = sorted({0, 1, mx, mx // 2, mx // 2 + 1, min(mx, 255),
                     min(mx, 256), min(mx, 32768)})
        for fmt in ('png', 'tif', 'pgm') + (('bmp',) if bits <= 8 else ()):
            for shape in ((1, 2), (2, 1)) + (((1, 3),) if deep else ()):
                n = len(al) ** (shape[0] * shape[1])
                for lo in range(0, n, 24):
                    px.append((bits, fmt, al, lo, shape))
    life = orders((0, 1)) + orders((0, 2)) + (orders((0, 1, 2)) if deep
                                              else [])
    # the same photons from radiances far apart
    faint = []
    for a, f, t, lo, hi in ((1e6, 1, 1e9, 1e-7, 1.), (1e6, 1, 1e9, 1e-9, .1),
                            (1., 64, 1e3, 1e7, 1e13), (40., 8, 1e6, 10, 1e9),
                            (1e8, 1, 1e10, 1e-12, 1e-4)):
        for s in (2, 3, 5):
            faint.append(dict(DEF, area=a, f_number=f, exposure_fixed=t,
                              exposure_max=t, steps=s, radiance=(lo, hi),
                              dark_current_ref=0))
    big = [dict(DEF, shape=(2, 3), bit_depth=16, K=.1, steps=s, L=L,
                exposure_fixed=fx, image_format=f)
           for s, L in ((60, 3), (3, 130), (2, 510)) + (((300, 3), (2, 1100))
                                              if deep else ())
           for fx in (None, 1e6) for f in ('png', 'tif')]
    return [Space('image sizes', sizes, run_config, chunk=1,
                  bound='sizes around the powers of two in each direction'),
            Space('large datasets', big, run_config, chunk=1,
                  bound='up to %d steps and %d images per spatial series' % (
                      (300, 1100) if deep else (60, 510))),
            Space('faint and strong light', faint, run_config, chunk=1,
                  bound='radiances from 1e-12 to 1e13'),
            Space('configurations', cfg, run_config,
                  bound='all pairs of deviations over 17 axes'),
            Space('pixel values', px, run_pixels,
                  bound='every 2%s pixel image over up to 8 extreme values, '
                  '16 bit depths, 4 formats' % (' and 3' if deep else '')),
            Space('lifetimes', life, run_life,
                  bound='every order of making and dropping %d generators'
                  % (3 if deep else 2))]
