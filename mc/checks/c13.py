"""C13: histograms"""
import itertools
import math
import numpy as np
from ..core import Space
from ..util import big_shapes, laid_out, LAYOUTS, texture
from emva1288.process import routines

ID = 'C13'
RULE = ('every tiny image over value alphabets around the bin limit, every '
        'mask, every bin limit, every integer pixel type; pixel by pixel '
        'recount')
ASSUME = ['integer images with at least one unmasked pixel',
          'the model curve of a constant image is undefined and not judged']


def check(ctx, img, qmax):
    keep = img.copy()
    mask = np.ma.getmaskarray(img)
    px = [int(v) for v, m in zip(np.ma.getdata(img).ravel(), mask.ravel())
          if not m]
    ctx.step()
    h = routines.Histogram1288(img, qmax)
    lo, hi, n = min(px), max(px), len(px)
    q = hi - lo
    W = q // qmax + 1
    Q = q // W + 1
    ctx.true('keys', {'bins', 'values', 'model'} <= set(h), sorted(h))
    ctx.true('not too many bins', len(h['bins']) <= qmax, len(h['bins']))
    ctx.close('bins', np.asarray(h['bins'], float),
              np.array([lo + i * W for i in range(Q)], float), 1e-12)
    want = [0] * Q
    for v in px:
        want[(v - lo) // W] += 1
    ctx.eq('counts', [int(v) for v in h['values']], want)
    ctx.eq('every pixel once', int(sum(h['values'])), n)
    ctx.eq('one model value per bin', len(h['model']), Q)
    if q:
        mu = math.fsum(px) / n
        sg = math.sqrt(math.fsum((v - mu) ** 2 for v in px) / n)
        model = [(q / Q) * n / (math.sqrt(2 * math.pi) * sg) *
                 math.exp(-.5 * ((lo + i * W - mu) / sg) ** 2)
                 for i in range(Q)]
        ctx.close('model', np.asarray(h['model'], float), np.array(model),
                  1e-9, 1e-300)
    ctx.eq('image unmodified', img, keep)
    ctx.true('bins are float', np.asarray(h['bins']).dtype.kind == 'f')
    ctx.state(keep, qmax)
    ctx.outcome(want, W)


def run_tiny(case, ctx):
    h, w, vals, dt, qmaxs = case
    for q in qmaxs:
        check(ctx, np.array(vals, np.int64).astype(dt).reshape(h, w), q)


def run_mask(case, ctx):
    h, w, vals, mask, q = case
    a = np.ma.array(np.array(vals).reshape(h, w),
                    mask=np.array(mask, bool).reshape(h, w))
    check(ctx, a, q)


def run_range(case, ctx):
    """range exactly around multiples of the bin limit"""
    q, lo, limit, dt, shape = case
    n = shape[0] * shape[1]
    v = np.array([lo + (i * 7919) % (q + 1) for i in range(n)])
    v[0], v[-1] = lo, lo + q
    check(ctx, v.astype(dt).reshape(shape), limit)
    m = np.zeros(n, bool)
    m[1::3] = True
    check(ctx, np.ma.array(v.astype(dt), mask=m).reshape(shape), limit)


def run_history(case, ctx):
    """a histogram does not depend on the ones before"""
    imgs = [np.arange(6).reshape(2, 3), np.array([[5, 5]]),
            np.ma.array([[1, 900]], mask=[[1, 0]]),
            np.array([[-300, 300, 7]])]
    kept = []
    for i in case:
        check(ctx, imgs[i], 4)
        h = routines.Histogram1288(imgs[i], 4)
        kept.append((h, {k: np.array(h[k], copy=True) for k in h}))
        h2 = routines.Histogram1288(imgs[i], 4)
        for k in h2:
            h2[k][...] = 0          # the caller may change what it got
    for h, c in kept:
        ctx.eq('returned histograms stay', {k: np.asarray(h[k]) for k in h},
               c)
    ctx.state(case)


def run_big(case, ctx):
    h, w, top, dt, masked, lay = case
    a = (texture(h, w, 1, top + 1) - (top // 3 if dt == 'int64' else 0))
    a = a.astype(dt)
    if masked:
        a = np.ma.array(a, mask=texture(h, w, 2) % 4 == 0)
    check(ctx, laid_out(a, lay), 256)


def spaces(tier):
    deep = tier == 'thorough'
    tiny = []
    for h, w, al, dt, qs in (
            (1, 1, (0, 5, -7), 'int64', (1, 2, 256)),
            (1, 3, (0, 1, 2, 3, 4, 5, 6, 7), 'int64', (1, 2, 3, 4, 256)),
            (2, 2, (-3, 0, 1, 5), 'int64', (1, 2, 3, 4, 5, 9, 256)),
            (2, 2, (0, 255, 256, 257), 'int64', (256,)),
            (2, 2, (0, 511, 512, 513), 'int64', (256,)),
            (1, 3, (-1000, -1, 0, 999, 65535), 'int64', (7, 256)),
            (2, 2, (0, 1, 254, 255), 'uint8', (2, 255, 256)),
            (2, 2, (0, 3, 65535), 'uint16', (2, 256)),
            (1, 3, (0, 1, 2 ** 32 - 1), 'uint32', (2, 256)),
            (1, 3, (-128, 0, 127), 'int8', (2, 255, 256)),
            (1, 3, (-32768, 0, 32767), 'int16', (2, 256)),
            (1, 3, (-2 ** 31, 0, 2 ** 31 - 1), 'int32', (2, 256))) + \
            (((2, 3, (0, 1, 3, 4), 'int64', (1, 2, 3, 5)),
              (3, 2, (0, 2, 5), 'int32', (2, 3, 6)),
              (1, 4, tuple(range(9)), 'int64', tuple(range(1, 11))))
             if deep else ()):
        for v in itertools.product(al, repeat=h * w):
            tiny.append((h, w, v, dt, qs))
    masks = []
    for h, w, al in ((1, 3, (0, 1, 4, 9)), (2, 2, (0, 3, 300))) + \
            (((2, 3, (0, 2, 7)),) if deep else ()):
        for v in itertools.product(al, repeat=h * w):
            for m in itertools.product((0, 1), repeat=h * w):
                if not all(m):
                    masks.append((h, w, v, m, 3))
                    masks.append((h, w, v, m, 256))
    rng = []
    for limit in (2, 10, 256):
        for mult in (1, 2, 3, 10):
            for d in (-2, -1, 0, 1):
                q = limit * mult + d
                if q < 1:
                    continue
                for lo in (0, -17, 1000):
                    for dt in ('int64', 'int32'):
                        for sh in ((8, 9), (33, 40)):
                            rng.append((q, lo, limit, dt, sh))
    hist = list(itertools.product(range(4), repeat=4 if deep else 3))
    big = [(h, w, top, dt, m, '') for h, w in big_shapes(deep)
           for top, dt in ((255, 'uint8'), (4095, 'int64'))
           for m in (0, 1)]
    lay = [(h, w, top, dt, m, l) for h, w in ((3, 4), (5, 1), (1, 6), (9, 7))
           for top, dt in ((255, 'uint8'), (4095, 'int64'), (900, 'uint16'))
           for m in (0, 1) for l in LAYOUTS]
    return [Space('image sizes', big, run_big,
                  bound='sizes around powers of two up to %d' % (
                      4097 if deep else 1025)),
            Space('memory layouts', lay, run_big,
                  bound='%d layouts' % len(LAYOUTS)),
            Space('tiny images', tiny, run_tiny,
                  bound='all images over the alphabets x bin limits'),
            Space('masks', masks, run_mask, bound='every mask'),
            Space('bin limits', rng, run_range,
                  bound='ranges at multiples of the limit -2..+1'),
            Space('histories', hist, run_history,
                  bound='all sequences of up to 4 histograms')]
