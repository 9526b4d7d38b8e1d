"""C16: spectrograms"""
import itertools
import math
import numpy as np
from ..core import Space
from ..util import big_shapes, laid_out, LAYOUTS, texture
from emva1288.process import routines

ID = 'C16'
RULE = ('every tiny image over a value alphabet, every mask of tiny images, '
        'every sinusoidal basis pattern of every width, both orientations '
        'and several stack sizes; against the definition of the discrete '
        'Fourier transform')
ASSUME = ['images of two or more rows and columns or with an explicit row '
          'axis, at least one unmasked pixel', 'relative tolerance 1e-9 of '
          'the image power']


def rows_of(img):
    """list of rows after dropping masked pixels"""
    if not isinstance(img, np.ma.MaskedArray):
        return [[float(v) for v in r] for r in np.asarray(img)]
    m = np.ma.getmaskarray(img)
    d = np.ma.getdata(img)
    out = [[float(v) for v, k in zip(r, q) if not k] for r, q in zip(d, m)]
    out = [r for r in out if r]
    c = min(len(r) for r in out)
    return [r[:c] for r in out]


_DFT = {}


def spectrum(rows, n):
    C = len(rows[0])
    if C not in _DFT:
        k = np.arange(C // 2 + 1)[:, None]
        x = np.arange(C)[None, :]
        ph = 2 * np.pi * ((k * x) % C) / C
        _DFT[C] = np.cos(ph), np.sin(ph)
    c, s = _DFT[C]
    flat = [v for r in rows for v in r]
    mean = math.fsum(flat) / len(flat)
    p = np.zeros(C // 2 + 1)
    for r in rows:
        d = np.array(r) - mean
        p += (c @ d) ** 2 + (s @ d) ** 2
    var = math.fsum((v - mean) ** 2 for v in flat) / len(flat)
    return p / len(rows) / C / n ** 2, var, C


def two_sided(p, C):
    """sum over k and -k"""
    tot = p[0] + 2 * sum(p[1:])
    if C % 2 == 0 and C > 1:
        tot -= p[-1]
    return tot


def check(ctx, img, rotate=False, n=1):
    keep = img.copy()
    ctx.step()
    got = routines.FFT1288(img, rotate, n) if rotate or n != 1 \
        else routines.FFT1288(img)
    ctx.eq('image unmodified', img, keep)
    ctx.true('image data unmodified', np.array_equal(
        np.ma.getdata(img), np.ma.getdata(keep)))
    rows = rows_of(img.T if rotate else img)
    want, var, C = spectrum(rows, n)
    top = max(max(abs(v) for v in r) for r in rows) or 1.
    atol = 1e-9 * top * top * C / n ** 2
    ctx.close('spectrum', np.asarray(got), want, 1e-9, atol)
    ctx.close('two sided mean is the variance', two_sided(got, C) / C,
              var / n ** 2, 1e-9, atol)
    f = routines.GetFrecs(got, C)
    ctx.close('frequencies', np.asarray(f),
              np.arange(C // 2 + 1) / C, 1e-12)
    if C % 2 == 0:
        ctx.close('frequencies (even)', np.asarray(routines.GetFrecs(got)),
                  np.arange(C // 2 + 1) / C, 1e-12)
    ctx.state(keep, rotate, n)
    ctx.outcome(np.round(want, 6))
    return got


def run_tiny(case, ctx):
    h, w, vals, dt = case
    img = np.array(vals).astype(dt).reshape(h, w)
    a = check(ctx, img)
    b = check(ctx, np.ascontiguousarray(img.T), True)
    ctx.close('rotation is transposition', b, a, 1e-12, 1e-9)
    check(ctx, img, True)
    for n in (2, 10):
        check(ctx, img, False, n)


def run_mask(case, ctx):
    h, w, vals, mask = case
    img = np.ma.array(np.array(vals).reshape(h, w),
                      mask=np.array(mask, bool).reshape(h, w))
    for rot in (False, True):
        check(ctx, img, rot)
        check(ctx, img, rot, 3)


def run_sine(case, ctx):
    h, w, k, amp, off, phase, n, rot = case
    x = np.arange(w)
    row = off + amp * np.cos(2 * np.pi * (k * x % w) / w + phase)
    img = np.tile(row, (h, 1)) * n
    if rot:
        img = np.ascontiguousarray(img.T)
    p = check(ctx, img, rot, n)
    # power of the sine appears at its frequency only
    full = k == 0 or (w % 2 == 0 and k == w // 2)
    power = amp ** 2 * math.cos(phase) ** 2 if full else amp ** 2 / 2
    if k == 0:
        want0 = 0.
    else:
        want0 = power * w if full else power * w / 2
    f = routines.GetFrecs(p, w)
    i = [j for j in range(len(f)) if abs(f[j] - k / w) < 1e-9]
    ctx.eq('one entry at the frequency', len(i), 1)
    want = np.zeros(len(p))
    want[i[0]] = want0
    ctx.close('peak', p, want, 1e-9, 1e-9 * (amp ** 2 + abs(off) ** 2) * w)


def run_impulse(case, ctx):
    h, w, pos, kind, n = case
    img = np.zeros((h, w), np.int64)
    img[pos // w, pos % w] = 1000
    if kind == 'neg':
        img = 500 - img
    if kind == 'pair':
        img[(pos // w + 1) % h, (pos % w + 2) % w] += 400
    for rot in (False, True):
        check(ctx, img, rot, n)


def run_bayer(case, ctx):
    h, w, py, px, mask = case
    y, x = np.mgrid[:h, :w]
    m = np.array([[mask[2 * (i % 2) + j % 2] for j in range(px, px + w)]
                  for i in range(py, py + h)], bool)
    img = np.ma.array((y * 31 + x * 17 + y * x) % 23, mask=m)
    if m.all():
        return
    for rot in (False, True):
        check(ctx, img, rot, 2)


def run_big(case, ctx):
    h, w, rot, n, masked, lay = case
    img = texture(h, w, 5)
    if masked:
        img = np.ma.array(img, mask=texture(h, w, 6) % 9 == 0)
    check(ctx, laid_out(img, lay), rot, n)


def run_stack(case, ctx):
    """every stack size, in every order"""
    h, w, ns = case
    img = texture(h, w, 7)
    for n in ns:
        for rot in (False, True):
            check(ctx, img, rot, n)


def run_history(case, ctx):
    """spectra one after the other, of images that differ a little"""
    kept = []
    for kind, rot, n in case:
        img = texture(4, 6, 8)
        if kind == 'other':
            img[1, 2] += 50
        elif kind == 'turned':
            img = np.ascontiguousarray(img.reshape(6, 4))
        elif kind == 'masked':
            img = np.ma.array(img, mask=texture(4, 6, 9) % 5 == 0)
        elif kind == 'mask':
            img = np.ma.array(img, mask=texture(4, 6, 9) % 5 == 1)
        r = check(ctx, img, rot, n)
        kept.append((r, np.array(r, copy=True)))
    for r, k in kept:
        ctx.eq('returned spectra stay', np.asarray(r), k)


def spaces(tier):
    deep = tier == 'thorough'
    tiny = []
    for h, w, al, dt in ((2, 2, (0, 1, 255), 'int64'),
                         (1, 4, (0, 1, 7), 'int64'),
                         (1, 5, (0, 1, 4095), 'int64'),
                         (4, 1, (0, 3), 'int64'), (3, 2, (0, 1), 'float64'),
                         (2, 3, (0, 200), 'uint8'),
                         (2, 3, (-5, 0, 9), 'int32'),
                         (1, 1, (0, 9), 'int64'),
                         (2, 2, (0, 65535), 'uint16')) + \
            (((3, 3, (0, 1, 100), 'int64'), (2, 4, (0, 1, 100), 'int64'),
              (1, 7, (0, 1, 9), 'int64')) if deep else ()):
        for v in itertools.product(al, repeat=h * w):
            tiny.append((h, w, v, dt))
    masks = []
    for h, w in ((2, 2), (2, 3), (3, 2), (3, 3)) + \
            (((3, 4), (2, 5)) if deep else ()):
        n = h * w
        for v in ([(i * 7 + 3) % 11 for i in range(n)],
                  [100 if i == n // 2 else 1 for i in range(n)]):
            for m in itertools.product((0, 1), repeat=n):
                if not all(m):
                    masks.append((h, w, v, m))
    sine = [(h, w, k, amp, off, ph, n, rot)
            for h in (1, 3)
            for w in (2, 3, 4, 5, 8, 9, 16, 21, 64) + ((33, 100, 101)
                                                      if deep else ())
            for k in range(w // 2 + 1)
            for amp, off in ((1., 0.), (50., 1000.)) for ph in (0., .7)
            for n in (1, 16) for rot in (False, True)]
    imp = [(h, w, p, k, n) for h, w in ((2, 3), (3, 4), (5, 5), (4, 7))
           for p in range(h * w) for k in ('pos', 'neg', 'pair')
           for n in (1, 7)]
    bay = [(h, w, py, px, m) for h, w in ((4, 4), (5, 4), (4, 5), (7, 9))
           for py in (0, 1) for px in (0, 1)
           for m in itertools.product((0, 1), repeat=4)]
    big = [(h, w, r, n, m, '') for h, w in big_shapes(
        deep, (2, 5), ((130, 257), (260, 150))) if max(h, w) < 2050
        for r in (False, True) for n, m in ((1, 0), (9, 1))]
    lay = [(h, w, r, n, m, l) for h, w in ((3, 4), (5, 2), (2, 6), (9, 7))
           for r in (False, True) for n in (1, 4) for m in (0, 1)
           for l in LAYOUTS]
    stack = [(h, w, (n,)) for h, w in ((3, 4), (4, 5)) for n in
             list(range(1, 131)) + [199, 200, 255, 256, 257, 300, 512, 1000,
                                    1024, 4096, 46340, 46341, 65535, 65536,
                                    100000]]
    calls = [(k, r, n) for k in ('plain', 'other', 'turned', 'masked',
                                 'mask')
             for r in (False, True) for n in (1, 3)]
    hist = list(itertools.product(calls, repeat=2))
    if deep:
        hist += list(itertools.product(calls[::3], repeat=3))
    return [Space('stack sizes', stack, run_stack,
                  bound='all up to 130, and around powers of two'),
            Space('histories', hist, run_history,
                  bound='all pairs of %d calls' % len(calls)),
            Space('image sizes', big, run_big,
                  bound='sizes around powers of two up to %d' % (
                      2049 if deep else 1025)),
            Space('memory layouts', lay, run_big,
                  bound='%d layouts' % len(LAYOUTS)),
            Space('tiny images', tiny, run_tiny,
                  bound='all images over the alphabets'),
            Space('masks', masks, run_mask, bound='every mask'),
            Space('sinusoids', sine, run_sine,
                  bound='every frequency of every width'),
            Space('impulses', imp, run_impulse, bound='every position'),
            Space('colour masks', bay, run_bayer,
                  bound='every 2x2 mask tile and phase')]
