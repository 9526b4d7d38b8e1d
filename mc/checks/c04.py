"""C04: loading"""
import itertools
import os
import numpy as np
from PIL import Image
from ..core import Space
from emva1288.process import LoadImageData

ID = 'C04'
RULE = ('every order of declaring the series of several datasets; every '
        'single fault (missing, unreadable, other shape, missing dark or '
        'bright series) at every image position; every torn prefix of an '
        'image file; histories of loaders')
ASSUME = ['PNG, TIFF, PGM and BMP files read through Pillow, and a caller '
          'supplied reader', 'colour files hold the same values in every '
          'band; the values of palette files are their indices']
TECH = ('exhaustive fault and torn-file enumeration over all image '
        'positions, exhaustive declaration orders, against a plain python '
        'reduction')

H, W = 3, 5
# (kind, exposure, photons, L)
DATASETS = [
    [('temporal', 1e3, 0.0, 2), ('temporal', 1e3, 10.0, 2),
     ('spatial', 1e3, 0.0, 3), ('spatial', 1e3, 10.0, 4)],
    [('temporal', 1e3, 0.0, 2), ('temporal', 1e3, 10.0, 2),
     ('temporal', 2e3, 5.0, 2), ('temporal', 2e3, 0.0, 2),
     ('spatial', 2e3, 0.0, 5), ('spatial', 2e3, 10.0, 3)],
    [('temporal', 7.5, 1.25, 2), ('temporal', 7.5, 0.0, 2),
     ('temporal', 7.5, 99.0, 2), ('spatial', 7.5, 99.0, 3),
     ('spatial', 7.5, 0.0, 3), ('temporal', 7.5, 1e6, 2)],
]


def pixels(si, k, top, shape=(H, W)):
    n = shape[0] * shape[1]
    v = (np.arange(n) * 7919 + si * 104729 + k * 1299709) % (top + 1)
    v[(si + k) % n] = top
    return v.reshape(shape)


def save(path, a, top):
    if top > 255:
        Image.fromarray(a.astype(np.int32)).save(path)
    else:
        Image.fromarray(a.astype(np.uint8)).save(path)


# where the files of a series are: base names may be shared
PLACES = {'flat': 'im_%(s)d_%(k)d', 'per series': 's%(s)d/im_%(k)d',
          'per image': '%(k)d/im_%(s)d', 'deep': 's%(s)d/x/%(k)d/im',
          'image': 's%(s)d_%(k)d/image', 'nested': 'im' + '/im' * 9,
          'case': 'IM_%(s)d%(k)d', 'dots': 'im.%(s)d.%(k)d',
          'spaces': 'a b %(s)d/c d %(k)d'}


def name_of(place, s, k):
    if place == 'nested':
        return '/'.join(['im'] * (1 + s * 7 + k))
    if place == 'case':
        # differs only by case
        return ''.join(c.upper() if (s * 8 + k) >> i & 1 else c
                       for i, c in enumerate('imagename'))
    return PLACES[place] % {'s': s, 'k': k}


def build(ctx, ds, top, ext='png', base=None, place='flat'):
    """writes the files -> {(si, k): name}"""
    base = base or ctx.tmp
    os.makedirs(base, exist_ok=True)
    names = {}
    for si, (kind, t, p, L) in enumerate(ds):
        for k in range(L):
            n = '%s.%s' % (name_of(place, si, k), ext)
            os.makedirs(os.path.dirname(os.path.join(base, n)),
                        exist_ok=True)
            save(os.path.join(base, n), pixels(si, k, top), top)
            names[si, k] = n
    return names


def images(ds, names, base, order=None):
    out = {'temporal': {}, 'spatial': {}}
    for si in order if order is not None else range(len(ds)):
        kind, t, p, L = ds[si]
        out[kind].setdefault(t, {})[p] = [
            os.path.join(base, names[si, k]) if base else names[si, k]
            for k in range(L)]
    return out


def expected(ds, top, shape=(H, W)):
    out = {'temporal': {}, 'spatial': {}}
    for si, (kind, t, p, L) in enumerate(ds):
        st = [pixels(si, k, top, shape).astype(object) for k in range(L)]
        s = sum(st)
        pv = L * (L * sum(i * i for i in st) - s * s)
        dm = float(st[-1].sum() - st[0].sum()) / (shape[0] * shape[1])
        if kind == 'spatial':
            d = {'L': L, 'sum': s.astype(np.int64),
                 'pvar': pv.astype(np.int64), 'dmean': dm}
        else:
            d = {'sum': int(s.sum()), 'pvar': int(pv.sum()), 'dmean': dm}
        out[kind].setdefault(t, {})[p] = d
    return out


def verify(ctx, data, ds, top, shape=(H, W)):
    want = expected(ds, top, shape)
    ctx.eq('kinds and size', (data['height'], data['width']), shape)
    for kind in ('temporal', 'spatial'):
        ctx.eq('exposures', sorted(data[kind]), sorted(want[kind]))
        for t in want[kind]:
            ctx.eq('photons', sorted(data[kind][t]), sorted(want[kind][t]))
            for p, w in want[kind][t].items():
                g = data[kind][t][p]
                where = '%s %s %s ' % (kind, t, p)
                for key in w:
                    ctx.true(where + key + ' present', key in g)
                    if key == 'dmean':
                        ctx.close(where + key, float(g[key]), w[key], 0,
                                  1e-9 * (top + 1))
                    elif kind == 'temporal':
                        ctx.eq(where + key, int(g[key]), w[key])
                    else:
                        ctx.eq(where + key, g[key], w[key])


def run_order(case, ctx):
    d, order, top, ext = case
    ds = DATASETS[d]
    names = build(ctx, ds, top, ext)
    im = images(ds, names, ctx.tmp, order)
    before = repr(im)
    ctx.step()
    data = LoadImageData(im).data
    verify(ctx, data, ds, top)
    ctx.true('declaration unmodified', repr(im) == before)
    ctx.state(case)


def run_place(case, ctx):
    d, place, rel, top, ext, how = case
    ds = DATASETS[d]
    base = os.path.join(ctx.tmp, 'set')
    names = build(ctx, ds, top, ext, base, place)
    ctx.step()
    if how == 'absolute':
        data = LoadImageData(images(ds, names, base)).data
    elif how == 'path':
        data = LoadImageData(images(ds, names, ''), path=base).data
    else:
        old = os.getcwd()
        os.chdir(base)
        try:
            data = LoadImageData(images(ds, names, '')).data
        finally:
            os.chdir(old)
    verify(ctx, data, ds, top)
    # a second dataset with the same names elsewhere, and in the same place
    for k, b in enumerate((os.path.join(ctx.tmp, 'other'), base)):
        ds2 = DATASETS[(d + k + 1) % 3]
        names = build(ctx, ds2, top - k, ext, b, place)
        ctx.step()
        verify(ctx, LoadImageData(images(ds2, names, b)).data, ds2, top - k)
    ctx.state(case)


def run_same_file(case, ctx):
    """series which share files"""
    ds = DATASETS[0]
    fs = {}
    for k in range(3):
        fs[k] = os.path.join(ctx.tmp, 'f%d.png' % k)
        save(fs[k], pixels(0, k, 255), 255)
    im = {'temporal': {}, 'spatial': {}}
    for (kind, t, p, L), sel in zip(ds, case):
        im[kind].setdefault(t, {})[p] = [fs[k] for k in sel]
    ctx.step()
    data = LoadImageData(im).data
    for (kind, t, p, L), sel in zip(ds, case):
        st = [pixels(0, k, 255) for k in sel]
        g = data[kind][t][p]
        s = sum(st)
        pv = len(sel) * (len(sel) * sum(i * i for i in st) - s * s)
        dm = float(st[-1].mean() - st[0].mean())
        ctx.close('dmean', float(g['dmean']), dm, 0, 1e-9 * 255)
        if kind == 'temporal':
            ctx.eq('reduction', (int(g['sum']), int(g['pvar'])),
                   (int(s.sum()), int(pv.sum())))
        else:
            ctx.eq('L', int(g['L']), len(sel))
            ctx.eq('sum', g['sum'], s)
            ctx.eq('pvar', g['pvar'], pv)
    ctx.state(case)


def _gray(mode, dtype, ext, **kw):
    def write(path, a):
        h, w = a.shape
        a = np.ascontiguousarray(a.astype(dtype))
        Image.frombytes(mode, (w, h), a.tobytes()).save(path, **kw)
    return ext, write


def _bands(mode, ext):
    def write(path, a):
        g = Image.fromarray(a.astype(np.uint8))
        full = Image.new('L', g.size, 255)
        Image.merge(mode, {'RGB': [g, g, g], 'RGBA': [g, g, g, full],
                           'LA': [g, full]}[mode]).save(path)
    return ext, write


def _palette(ext, colours):
    def write(path, a):
        g = Image.fromarray(a.astype(np.uint8)).convert('L')
        p = Image.frombytes('P', g.size, g.tobytes())
        p.putpalette(colours)
        p.save(path)
    return ext, write


_RAMP = [v for i in range(256) for v in (i, i, i)]
_FALSE = [v for i in range(256) for v in (255 - i, i * 7 % 256, 3)]
# how an image may be stored without loss -> (largest value, how to write)
STORED = {
    'png 8': (255, _gray('L', 'u1', 'png')),
    'png 8 optimized': (255, _gray('L', 'u1', 'png', optimize=True)),
    'png 8 uncompressed': (255, _gray('L', 'u1', 'png', compress_level=0)),
    'png 16': (65535, _gray('I;16', '<u2', 'png')),
    'png 16 of 32': (65535, _gray('I', '<i4', 'png')),
    'png colour': (255, _bands('RGB', 'png')),
    'png alpha': (255, _bands('RGBA', 'png')),
    'png gray alpha': (255, _bands('LA', 'png')),
    'png palette': (255, _palette('png', _RAMP)),
    'png false colours': (255, _palette('png', _FALSE)),
    'tif 8': (255, _gray('L', 'u1', 'tif')),
    'tif 16': (65535, _gray('I;16', '<u2', 'tif')),
    'tif 16 big endian': (65535, _gray('I;16B', '>u2', 'tif')),
    'tif 32': (2 ** 20 - 1, _gray('I', '<i4', 'tif')),
    'tif 8 lzw': (255, _gray('L', 'u1', 'tif', compression='tiff_lzw')),
    'tif 16 deflate': (65535, _gray('I;16', '<u2', 'tif',
                                    compression='tiff_adobe_deflate')),
    'tif 8 packbits': (255, _gray('L', 'u1', 'tif',
                                  compression='packbits')),
    'tif colour': (255, _bands('RGB', 'tif')),
    'pgm 8': (255, _gray('L', 'u1', 'pgm')),
    'pgm 16': (65535, _gray('I', '<i4', 'pgm')),
    'ppm colour': (255, _bands('RGB', 'ppm')),
    'bmp 8': (255, _gray('L', 'u1', 'bmp')),
    'bmp colour': (255, _bands('RGB', 'bmp')),
}


def run_stored(case, ctx):
    """the values do not depend on how the images are stored"""
    d, kinds = case
    ds = DATASETS[d]
    top = min(STORED[k][0] for k in kinds)
    names = {}
    for si, s in enumerate(ds):
        for k in range(s[3]):
            ext, write = STORED[kinds[(si + k) % len(kinds)]][1]
            names[si, k] = 'i%d_%d.%s' % (si, k, ext)
            write(os.path.join(ctx.tmp, names[si, k]), pixels(si, k, top))
    ctx.step()
    data = LoadImageData(images(ds, names, ctx.tmp)).data
    verify(ctx, data, ds, top)
    ctx.state(case)
    ctx.outcome(top)


def run_shape(case, ctx):
    """caller supplied reader with arguments, relative path, any shape"""
    h, w, dt, top = case
    ds = DATASETS[1]
    names = build(ctx, ds, 1)
    key = {v: k for k, v in names.items()}
    calls = []

    def read(fname, a, b=None):
        calls.append((os.path.basename(fname), a, b))
        return pixels(*key[os.path.basename(fname)], top=top,
                      shape=(h, w)).astype(dt)
    ctx.step()
    L = LoadImageData(images(ds, names, ''), path=ctx.tmp, fload=read,
                      fload_args=[5], fload_kwargs={'b': 7})
    verify(ctx, L.data, ds, top, (h, w))
    ctx.eq('every image read once', sorted(calls),
           sorted((n, 5, 7) for n in names.values()))
    ctx.state(case)


FAULTS = ['missing', 'empty', 'garbage', 'directory', 'row more', 'col more',
          'row less', 'col less', 'transposed', 'flat', 'half', 'broken link',
          'one row', 'one col', 'one pixel']


def run_fault(case, ctx):
    d, si, k, fault, top = case
    ds = DATASETS[d]
    names = build(ctx, ds, top)
    fn = os.path.join(ctx.tmp, names[si, k])
    raw = open(fn, 'rb').read()
    os.remove(fn)
    if fault == 'empty':
        open(fn, 'wb').close()
    elif fault == 'garbage':
        open(fn, 'wb').write(b'not an image' * 20)
    elif fault == 'directory':
        os.mkdir(fn)
    elif fault == 'half':
        open(fn, 'wb').write(raw[:len(raw) // 2])
    elif fault == 'broken link':
        os.symlink(fn + '.nowhere', fn)
    elif fault != 'missing':
        h, w = {'row more': (H + 1, W), 'col more': (H, W + 1),
                'row less': (H - 1, W), 'col less': (H, W - 1),
                'transposed': (W, H), 'flat': (1, H * W),
                'one row': (1, W), 'one col': (H, 1),
                'one pixel': (1, 1)}[fault]
        save(fn, pixels(si, k, top, (h, w)), top)
    e = ctx.raises(fault, Exception, LoadImageData,
                   images(ds, names, ctx.tmp))
    ctx.outcome(type(e).__name__)
    if fault in ('missing', 'broken link', 'directory'):
        # also with a reader that would give an image for any name
        ctx.raises(fault + ', own reader', Exception, LoadImageData,
                   images(ds, names, ctx.tmp),
                   fload=lambda f: pixels(0, 0, top))
    ctx.state(case)


def run_incomplete(case, ctx):
    d, gone, top = case
    ds = DATASETS[d]
    names = build(ctx, ds, top)
    keep = [s for i, s in enumerate(ds) if i not in gone]
    nm = {}
    for j, i in enumerate([i for i in range(len(ds)) if i not in gone]):
        for k in range(ds[i][3]):
            nm[j, k] = names[i, k]
    bad = False
    for kind in ('temporal', 'spatial'):
        for t in {s[1] for s in keep if s[0] == kind}:
            ph = [s[2] for s in keep if s[0] == kind and s[1] == t]
            bad |= 0.0 not in ph or len(ph) < 2
    im = images(keep, nm, ctx.tmp)
    ctx.state(case)
    if bad:
        ctx.raises('lacks a dark or bright series', ValueError,
                   LoadImageData, im)
        ctx.outcome('refused')
    elif keep:
        ctx.step()
        got = LoadImageData(im).data
        ctx.outcome(sorted(got['temporal']), sorted(got['spatial']))
        ctx.eq('kept', {k: {t: sorted(v) for t, v in got[k].items()}
                        for k in ('temporal', 'spatial')},
               {k: {t: sorted(v) for t, v in im[k].items()}
                for k in ('temporal', 'spatial')})


PHOTONS = [0.0, 3.5, 20.0]


def run_structure(case, ctx):
    """which series of which kind and exposure time are there"""
    names = {}
    for i in range(5):
        names[i] = os.path.join(ctx.tmp, 'x%d.png' % i)
        open(names[i], 'w').close()

    def read(fname):
        return pixels(0, int(os.path.basename(fname)[1:-4]), 255)
    im = {'temporal': {}, 'spatial': {}}
    bad = False
    for kind, sub in zip(('temporal', 'spatial'), case):
        for t, bits in zip((1e3, 2.5e6, 40.), sub):
            if bits is None:
                continue
            ph = [p for n, p in enumerate(PHOTONS) if bits >> n & 1]
            im[kind][t] = {p: [names[j] for j in range(
                2 if kind == 'temporal' else 3)] for p in ph}
            bad |= 0.0 not in ph or len(ph) < 2
    ctx.state(case)
    if bad:
        ctx.raises('lacks a dark or bright series', ValueError,
                   LoadImageData, im, fload=read)
        ctx.outcome('refused')
        return
    ctx.step()
    got = LoadImageData(im, fload=read).data
    for kind in im:
        ctx.eq('series', {t: sorted(v) for t, v in got[kind].items()},
               {t: sorted(v) for t, v in im[kind].items()})
    ctx.outcome({k: sorted(got[k]) for k in im})


def run_torn(case, ctx):
    d, si, k, top, ext, cuts = case
    ds = DATASETS[d]
    names = build(ctx, ds, top, ext)
    fn = os.path.join(ctx.tmp, names[si, k])
    raw = open(fn, 'rb').read()
    for cut in range(cuts[0], min(cuts[1], len(raw))):
        open(fn, 'wb').write(raw[:cut])
        ctx.step()
        ctx.state(d, si, k, top, ext, cut)
        try:
            data = LoadImageData(images(ds, names, ctx.tmp)).data
        except Exception as e:
            ctx.outcome(type(e).__name__)
            continue
        # a reader may know the whole image already: then it is that image
        ctx.outcome('complete')
        verify(ctx, data, ds, top)


def run_history(case, ctx):
    alive = []
    for n, (d, top) in enumerate(case):
        ds = DATASETS[d]
        base = os.path.join(ctx.tmp, str(n))
        names = build(ctx, ds, top, 'png', base)
        ctx.step()
        alive.append((LoadImageData(images(ds, names, base)).data, ds, top))
        for a in alive:
            verify(ctx, *a)
    ctx.state(case)


def run_bad_history(case, ctx):
    """a failed load must not influence the next one"""
    d, fault, d2 = case
    run_fault((d, 0, 1, fault, 255), ctx)
    ds = DATASETS[d2]
    base = os.path.join(ctx.tmp, 'next')
    names = build(ctx, ds, 4095, 'png', base)
    verify(ctx, LoadImageData(images(ds, names, base)).data, ds, 4095)


def spaces(tier):
    deep = tier == 'thorough'
    od = []
    for d, ds in enumerate(DATASETS):
        for n, o in enumerate(itertools.permutations(range(len(ds)))):
            for top, ext in ((255, 'png'), (65535, 'png'), (255, 'tif'),
                             (65535, 'tif'), (1, 'bmp')):
                if deep or d == 0 or n % 720 in (0, 719) or \
                        (top == 65535 and ext == 'png'):
                    od.append((d, o, top, ext))
    shp = [(h, w, dt, top) for h, w in ((1, 1), (1, 4), (4, 1), (2, 3),
                                        (3, 2), (7, 9), (64, 48),
                                        (1025, 3), (2, 4097), (513, 300))
           for dt, top in (('uint8', 255), ('uint16', 65535),
                           ('int32', 65535), ('uint16', 4095),
                           ('int64', 65535), ('>u2', 65535))]
    fl = [(d, si, k, f, top) for d, ds in enumerate(DATASETS)
          for si, s in enumerate(ds) for k in range(s[3]) for f in FAULTS
          for top in ((255, 65535) if deep else (255,))]
    inc = [(d, [i for i in range(len(ds)) if b >> i & 1], 255)
           for d, ds in enumerate(DATASETS) for b in range(2 ** len(ds) - 1)]
    to = []
    for d, si, k in ((0, 0, 0), (0, 0, 1), (0, 3, 3), (1, 4, 2)):
        for top, ext in ((255, 'png'), (65535, 'png'), (255, 'tif')) + \
                (((65535, 'tif'), (255, 'bmp')) if deep else ()):
            for c in range(0, 400, 25):
                to.append((d, si, k, top, ext, (c, c + 25)))
    hi = [h for n in (2, 3) for h in itertools.product(
        [(0, 255), (1, 65535), (2, 4095)], repeat=n)]
    bh = [(d, f, d2) for d in range(3) for f in FAULTS for d2 in range(3)]
    sd = [(d, [a, b] if a != b else [a])
          for a, b in itertools.combinations_with_replacement(STORED, 2)
          for d in ((0, 1, 2) if deep or a == b else (0,))]
    subs = list(itertools.product([None] + list(range(8)), repeat=2))
    st = [(a, b) for a in subs for b in subs
          if a != (None, None) or b != (None, None)]
    if not deep:
        st = [(a, b) for a, b in st if b[1] is None or a[1] is None]
    three = list(itertools.product((None, 3, 5, 7) if deep else (None, 3, 5),
                                   repeat=3))
    st += [(a, b) for a in three for b in three if any(a) or any(b)]
    pl = [(d, p, 0, top, ext, how) for d in range(3) for p in sorted(PLACES)
          for top, ext in ((255, 'png'), (65535, 'tif'))
          for how in ('absolute', 'path', 'cwd')]
    two = list(itertools.product(range(3), repeat=2))
    thr = [(0, 1, 2), (0, 0, 0), (1, 0, 1), (2, 1, 0)]
    sf = [c for c in itertools.product(two, two, thr, thr)]
    if not deep:
        sf = [c for c in sf if c[2] == thr[0] or c[0] == (0, 1)]
    return [Space('places', pl, run_place,
                  bound='%d ways to spread the files over directories, three '
                  'datasets one after the other' % len(PLACES)),
            Space('shared files', sf, run_same_file,
                  bound='every choice of 3 files for 4 series'),
            Space('orders', od, run_order,
                  bound='every order of declaring the series'),
            Space('shapes and reader', shp, run_shape, bound='listed'),
            Space('stored', sd, run_stored,
                  bound='%d lossless ways to store an image, all pairs'
                  % len(STORED)),
            Space('single faults', fl, run_fault,
                  bound='every fault at every image position'),
            Space('incomplete', inc, run_incomplete,
                  bound='every subset of the series missing'),
            Space('structures', st, run_structure,
                  bound='every set of 3 photon counts at up to 2 exposure '
                        'times for both kinds, lawful ones at up to 3'),
            Space('torn files', to, run_torn,
                  bound='every prefix length of an image file'),
            Space('histories', hi + [], run_history,
                  bound='all histories of 2 and 3 loads'),
            Space('after a failure', bh, run_bad_history,
                  bound='every fault followed by every dataset')]
