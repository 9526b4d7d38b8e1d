"""C03: reduction of image stacks"""
import itertools
import numpy as np
from ..core import Space
from ..util import big_shapes, texture
from emva1288.process import routines

ID = 'C03'
RULE = ('every stack of up to L images of up to P pixels over a value '
        'alphabet with the extremes of every pixel type, every mask, every '
        'memory layout, plus long stacks at the extremes; expectation in '
        'exact python integers')
ASSUME = ['L^3 * max^2 fits in 63 bits (1290 images of 16 bits)']

TYPES = {'uint8': (0, 255), 'uint16': (0, 65535), 'int16': (-32768, 32767),
         'int32': (-2 ** 20, 2 ** 24 - 1), 'uint32': (0, 2 ** 24 - 1),
         'int64': (0, 2 ** 24 - 1), '>u2': (0, 65535), 'bool': (0, 1)}


def verify(ctx, imgs, container=list):
    data = [np.ma.getdata(i) for i in imgs]
    masks = [np.ma.getmaskarray(i) for i in imgs]
    anymask = any(isinstance(i, np.ma.MaskedArray) for i in imgs)
    keep = [d.copy() for d in data]
    keepm = [m.copy() for m in masks]
    L = len(imgs)
    shape = data[0].shape
    union = np.zeros(shape, bool)
    for m in masks:
        union |= m
    px = [[int(v) for v in d.ravel()] for d in data]
    s = [sum(c) for c in zip(*px)]
    q = [sum(v * v for v in c) for c in zip(*px)]
    pv = [L * (L * b - a * a) for a, b in zip(s, q)]

    def mean(k):
        v = [p for p, m in zip(px[k], masks[k].ravel()) if not m]
        return sum(v) / len(v)
    dm = mean(L - 1) - mean(0)

    ctx.step()
    r = routines.get_int_imgs(container(imgs))
    ctx.eq('L', r['L'], L)
    want = {'sum': s, 'pvar': pv}
    for k in ('sum', 'pvar'):
        got = r[k]
        ctx.true(k + ' integer', np.ma.getdata(got).dtype.kind == 'i',
                 np.ma.getdata(got).dtype)
        ctx.eq(k + ' shape', np.shape(got), shape)
        if anymask:
            ctx.eq(k + ' mask', np.ma.getmaskarray(got), union)
        else:
            ctx.true(k + ' unmasked', not np.ma.is_masked(got))
        g = np.ma.getdata(got).ravel()
        for i, m in enumerate(union.ravel()):
            if not m and int(g[i]) != want[k][i]:
                ctx.fail(k, 'pixel %d: got %d want %d'
                         % (i, g[i], want[k][i]))
    scale = max(abs(v) for p in px for v in p) + 1
    ctx.close('dmean', float(r['dmean']), dm, 0, 1e-11 * scale * L)
    for i, a, m in zip(imgs, keep, keepm):
        ctx.true('inputs unmodified',
                 np.array_equal(np.ma.getdata(i), a) and
                 np.array_equal(np.ma.getmaskarray(i), m) and
                 np.ma.getdata(i).dtype == a.dtype)
    ctx.state(px, union, str(data[0].dtype))
    ctx.outcome(s, pv)


def run_small(case, ctx):
    dt, shape, L, vals = case
    n = shape[0] * shape[1]
    imgs = [np.array(vals[k * n:(k + 1) * n]).reshape(shape).astype(dt)
            for k in range(L)]
    verify(ctx, imgs)


def run_long(case, ctx):
    dt, L, pat, shape = case
    lo, hi = TYPES[dt]
    n = shape[0] * shape[1]
    imgs = []
    for k in range(L):
        if pat == 'max':
            v = np.full(n, hi)
        elif pat == 'alt':
            v = np.full(n, hi if k % 2 else lo)
        elif pat == 'lasthigh':
            v = np.full(n, hi if k == L - 1 else lo)
        else:
            v = (np.arange(n) * 37 + k * 101) % (hi - lo + 1) + lo
        imgs.append(v.reshape(shape).astype(dt))
    verify(ctx, imgs)


def run_mask(case, ctx):
    dt, L, bits, scheme = case
    shape = (2, 3)
    imgs = []
    for k in range(L):
        b = bits if scheme == 'same' else (
            bits if k == 0 else 0) if scheme == 'first' else (
            bits if k == L - 1 else 0) if scheme == 'last' else \
            bits if k % 2 else (bits << 1) & 63
        if b == 63:
            return        # the mean of nothing
        m = np.array([(b >> i) & 1 for i in range(6)], bool).reshape(shape)
        a = ((np.arange(6) * 50 + k * 60) % 256).reshape(shape).astype(dt)
        imgs.append(np.ma.array(a, mask=m))
    verify(ctx, imgs)


def run_layout(case, ctx):
    dt, lay, L, cont = case
    imgs = []
    for k in range(L):
        a = ((np.arange(20).reshape(4, 5) * 13 + k * 77) % 256).astype(dt)
        if lay == 'fortran':
            a = np.asfortranarray(a)
        elif lay == 'strided':
            b = np.zeros((8, 10), dt)
            b[::2, ::2] = a
            a = b[::2, ::2]
        elif lay == 'reversed':
            a = a[::-1, ::-1]
        elif lay == 'readonly':
            a.setflags(write=False)
        elif lay == 'transposed':
            a = a.T
        elif lay == 'shared':
            if imgs:
                a = imgs[0]
        elif lay == 'views':
            if imgs:
                a = imgs[0][:, :]
        imgs.append(a)
    verify(ctx, imgs, {'list': list, 'tuple': tuple}[cont])
    # the reduction of the reduction's own inputs again, and reversed
    verify(ctx, imgs[::-1])
    verify(ctx, imgs)


def run_big(case, ctx):
    h, w, L, dt, masked = case
    hi = min(TYPES[dt][1], 65535)
    px = [texture(h, w, k, hi + 1) for k in range(L)]
    imgs = [p.astype(dt) for p in px]
    union = np.zeros((h, w), bool)
    means = [p.mean() for p in px]
    if masked:
        masks = [texture(h, w, 50 + k) % 5 == 0 for k in range(L)]
        imgs = [np.ma.array(i, mask=m) for i, m in zip(imgs, masks)]
        means = [p[~m].mean() for p, m in zip(px, masks)]
        for m in masks:
            union |= m
    keep = [i.copy() for i in imgs]
    ctx.step()
    r = routines.get_int_imgs(imgs)
    s = sum(px)
    pv = L * (L * sum(p * p for p in px) - s * s)
    ctx.eq('L', int(r['L']), L)
    for k, v in (('sum', s), ('pvar', pv)):
        ctx.eq(k + ' mask', bool(masked and (np.ma.getmaskarray(
            r[k]) != union).any()), False)
        ctx.eq(k + ' shape', np.shape(r[k]), (h, w))
        bad = np.argwhere((np.ma.getdata(r[k]) != v) & ~union)
        ctx.eq(k + ' wrong at', bad[:3].tolist(), [])
    ctx.close('dmean', float(r['dmean']), means[-1] - means[0], 0,
              1e-8 * hi)
    ctx.true('inputs unmodified', all(
        np.array_equal(np.ma.getdata(a), np.ma.getdata(b))
        for a, b in zip(imgs, keep)))
    ctx.state(case)
    ctx.outcome(int(s.sum()))


def spaces(tier):
    deep = tier == 'thorough'
    sm = []
    for dt, (lo, hi) in TYPES.items():
        al = sorted({lo, 0, 1, hi - 1 if hi > 1 else 1, hi})
        for L in range(1, 6 if deep else 5):
            for v in itertools.product(al, repeat=L):
                sm.append((dt, (1, 1), L, v))
        al2 = sorted({lo, 1, hi})
        for shape, L in (((1, 2), 2), ((2, 1), 3)) + \
                ((((1, 2), 4), ((2, 2), 2)) if deep else ()):
            for v in itertools.product(al2, repeat=2 * L if shape != (2, 2)
                                       else 8):
                sm.append((dt, shape, L, v))
    lo = [(dt, L, p, sh) for dt in TYPES
          for L in ((2, 3, 16, 50, 255, 256, 257, 400) +
                    ((1000, 1290) if deep else ()))
          for p in ('max', 'alt', 'lasthigh', 'ramp')
          for sh in ((1, 1), (3, 5))
          if L ** 3 * max(abs(x) for x in TYPES[dt]) ** 2 < 2 ** 63]
    # values with more than 24 bits, as long as the integers can hold them
    huge = []
    for L in (1, 2, 3, 4):
        top = 2 ** 25
        while L ** 3 * (2 * top) ** 2 < 2 ** 63 and top < 2 ** 30:
            top *= 2
        al = (0, 1, 2 ** 24 + 1, 2 ** 26 + 1, top // 2 + 1, top - 2, top - 1)
        for dt in ('int64', 'uint32', 'int32'):
            for v in itertools.product(al, repeat=L):
                if L < 4 or deep or dt == 'int64':
                    huge.append((dt, (1, 1), L, v))
            if dt != 'uint32':
                for v in itertools.product((-top, -1, 1 - top, top - 1),
                                           repeat=L):
                    huge.append((dt, (1, 1), L, v))
    mk = [(dt, L, b, s) for dt in ('uint8', 'uint16', 'int64')
          for L in ((2, 3, 4) if not deep else (1, 2, 3, 4, 5, 6))
          for b in range(63) for s in ('same', 'first', 'last', 'alt')]
    la = [(dt, l, L, c) for dt in ('uint8', 'uint16', 'int32', 'int64')
          for l in ('c', 'fortran', 'strided', 'reversed', 'readonly',
                    'transposed', 'shared', 'views')
          for L in (2, 3, 5) for c in ('list', 'tuple')]
    big = [(h, w, L, dt, m) for h, w in big_shapes(deep, (1, 5))
           for L, dt in ((2, 'uint16'), (3, 'uint8'), (5, 'int64'))
           for m in (0, 1)]
    return [Space('image sizes', big, run_big,
                  bound='sizes around powers of two up to %d' % (
                      4097 if deep else 1025)),
            Space('all small stacks', sm, run_small,
                  bound='L up to %d, values lo,0,1,hi-1,hi of 8 types'
                  % (5 if deep else 4)),
            Space('large values', huge, run_small,
                  bound='up to 4 images, up to 30 bits'),
            Space('long stacks', lo, run_long, bound='listed lengths'),
            Space('all masks', mk, run_mask, bound='all masks of 2x3'),
            Space('memory layouts', la, run_layout,
                  bound='listed layouts and aliasing')]
