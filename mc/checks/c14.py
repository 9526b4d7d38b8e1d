"""C14: defect pixel histograms"""
from fractions import Fraction as F
import itertools
import math
import numpy as np
from ..core import Space
from ..util import deviations
from .c11 import make
from emva1288.process import Results1288

ID = 'C14'
RULE = ('every configuration of image pattern, hot and dead pixels, stack '
        'sizes, shape and mask within a number of deviations, and every tiny '
        'dark image; each histogram against a pixel by pixel recount in '
        'exact arithmetic')
ASSUME = ['PRNU images of at least 5 x 5 pixels (7 x 7 with a colour mask)',
          'the accumulated histograms may round the mean down to the '
          'integer summed image (one grey value divided by the stack size '
          'and filter factor)']
NAMES = ('histogram_DSNU', 'histogram_PRNU', 'histogram_DSNU_accumulated',
         'histogram_PRNU_accumulated')


def results(sum_, dark, L, Ld):
    h, w = sum_.shape
    sp = {'sum': sum_, 'sum_dark': dark, 'L': L, 'L_dark': Ld, 'M': h,
          'N': w, 'M_dark': h, 'N_dark': w, 'avg_mean': 50.,
          'avg_mean_dark': 5., 'texp': 1e6, 'u_p': 100.}
    t = make([1e6] * 4, [5.] * 4, [.3] * 4, .5)
    return Results1288({'temporal': t, 'spatial': sp}), sp


def unmasked(a):
    return [int(v) for v in np.ma.compressed(np.ma.asarray(a))]


def box(y, d=5):
    """exact list of (pixel - box mean) and the number of pixels in a box"""
    data = np.ma.getdata(y)
    mask = np.ma.getmaskarray(y)
    s = d // 2
    h, w = data.shape
    out, cnt = [], set()
    for i in range(s, h - s):
        for j in range(s, w - s):
            if mask[i, j]:
                continue
            win = data[i - s:i + s + 1, j - s:j + s + 1]
            ok = ~mask[i - s:i + s + 1, j - s:j + s + 1]
            n = int(ok.sum())
            cnt.add(n)
            out.append(F(n * int(data[i, j]) -
                         int(win[ok].astype(object).sum())))
    assert len(cnt) == 1
    n = cnt.pop()
    return [v / n for v in out], n


def grid(values, unit):
    """the values as integers in units of `unit`"""
    out = [v / unit for v in values]
    assert all(v.denominator == 1 for v in out)
    return [int(v) for v in out]


def judge(ctx, name, h, values, unit, accumulated, center):
    """values: exact DN values of the unmasked pixels, unit: DN per integer"""
    n = len(values)
    bins = [float(b) for b in h['bins']]
    cnt = [float(v) for v in h['values']]
    ctx.eq(name + ' same length', len(bins), len(cnt))
    ctx.true(name + ' at most 256 bins', len(bins) <= 256)
    mean = sum(values) / n
    tol = 1e-6 * float(unit)
    if not accumulated:
        dev = [v - mean for v in values] if center else values
        got = cnt
        lo = float(min(dev))
        ctx.close(name + ' first bin', bins[0], lo, 1e-9, tol)
        W = bins[1] - bins[0] if len(bins) > 1 else math.inf
        hist = [0] * len(bins)
        for v in dev:
            k = 0 if math.isinf(W) else \
                int(math.floor((float(v) - bins[0] + tol) / W))
            ctx.true(name + ' covers all pixels', 0 <= k < len(bins), v)
            hist[k] += 1
        ctx.eq(name + ' counts', [int(v) for v in got], hist)
        ctx.eq(name + ' all pixels', int(sum(got)), n)
        if len(bins) > 1:
            ctx.close(name + ' even bins', bins,
                      [bins[0] + i * W for i in range(len(bins))], 1e-9,
                      tol)
        q = max(values) - min(values)
        if q / unit < 256 and len(bins) > 1:
            ctx.close(name + ' finest bins', W, float(unit), 1e-6)
        if q and 'model' in h:
            sg = math.sqrt(sum(float(d - (0 if center else mean)) ** 2
                               for d in dev) / n)
            Q = len(bins)
            mu = 0. if center else float(mean)
            mod = [float(q) / Q * n / (math.sqrt(2 * math.pi) * sg) *
                   math.exp(-.5 * ((b - mu) / sg) ** 2) for b in bins]
            ctx.close(name + ' model', [float(v) for v in h['model']], mod,
                      1e-6, 1e-12 * n)
        return hist
    ctx.close(name + ' starts at 100', cnt[0], 100., 1e-12)
    ctx.true(name + ' never increases',
             all(a >= b for a, b in zip(cnt, cnt[1:])))
    ctx.true(name + ' stays positive', min(cnt) > 0)
    # the mean may have been rounded to an integer of the summed image
    m = mean / unit
    cands = sorted({math.floor(m), math.ceil(m), int(m)})
    ok = False
    for c in [F(c) for c in cands] + [m]:
        dev = [abs(v / unit - c) for v in values]
        if abs(float(min(dev) * unit) - bins[0]) > tol:
            continue
        want = [100. * sum(1 for d in dev if float(d * unit) >= b - tol) / n
                for b in bins]
        if max(abs(a - b) for a, b in zip(want, cnt)) < 1e-9:
            ok = True
            break
    ctx.true(name + ' percentages', ok, bins, cnt)
    return cnt


def check(ctx, sum_, dark, L, Ld, prnu=True, order=0):
    r, sp = results(sum_, dark, L, Ld)
    keep = {k: (v.copy() if hasattr(v, 'copy') else v)
            for k, v in sp.items()}
    names = NAMES if prnu else NAMES[::2]
    if order:
        names = names[::-1]
    for name in names + names[:1]:
        ctx.step()
        h = getattr(r, name)
        if 'DSNU' in name:
            vals = [F(v, Ld) for v in unmasked(dark)]
            unit = F(1, Ld)
            center = True
        else:
            lc = L * Ld // math.gcd(L, Ld)
            y = sum_.astype(object) * (lc // L) - \
                dark.astype(object) * (lc // Ld)
            y = np.ma.array(y, mask=np.ma.getmaskarray(sum_)) \
                if isinstance(sum_, np.ma.MaskedArray) else y
            vals, n = box(y)
            vals = [v / lc for v in vals]
            unit = F(1, lc * n)
            center = False
        out = judge(ctx, name, h, vals, unit, 'acc' in name, center)
        ctx.outcome(name, out)
    ctx.eq('data unmodified', sp, keep)
    ctx.state(sum_, dark, L, Ld)


def image(kind, h, w, L, amp, hot, seed):
    y, x = np.mgrid[:h, :w]
    a = {'flat': y * 0, 'ramp': y * 2 + x,
         'noise': (y * 7919 + x * 104729 + seed * 31 + y * x * 17) % 13,
         'rows': (y % 3), 'shade': (y - h // 2) ** 2 + x}[kind]
    a = a * amp * L // 4 + 20 * L
    if hot:
        a[h // 2, w // 2] += hot * L
        a[h - 3, 2] -= min(hot * L // 2, int(a[h - 3, 2]))
    return a.astype(np.int64)


def bayer(h, w, which):
    y, x = np.mgrid[:h, :w]
    if which == 'green':
        return (y + x) % 2 == 0
    return ~((y % 2 == 0) & (x % 2 == 0))


DEFAULT = {'shape': (9, 11), 'L': 4, 'Ld': 4, 'bk': 'noise', 'dk': 'noise',
           'amp': 3, 'bhot': 0, 'dhot': 0, 'mask': None}
AXES = {'shape': ((5, 5), (6, 5), (5, 9), (9, 11), (20, 16)),
        'L': (2, 3, 4, 16, 100), 'Ld': (2, 3, 4, 6, 50),
        'bk': ('flat', 'ramp', 'noise', 'rows', 'shade'),
        'dk': ('flat', 'ramp', 'noise', 'rows', 'shade'),
        'amp': (0, 1, 3, 200), 'bhot': (0, 7, 3000), 'dhot': (0, 7, 3000),
        'mask': (None, 'none', 'nomask', 'green', 'red')}


def run_config(case, ctx):
    h, w = case['shape']
    dark = image(case['dk'], h, w, case['Ld'], case['amp'], case['dhot'], 1)
    sum_ = image(case['bk'], h, w, case['L'], case['amp'], case['bhot'], 2)
    sum_ = sum_ + 50 * case['L']
    prnu = True
    if case['mask']:
        m = np.zeros((h, w), bool) if case['mask'] == 'none' else \
            np.ma.nomask if case['mask'] == 'nomask' else \
            bayer(h, w, case['mask'])
        sum_, dark = np.ma.array(sum_, mask=m), np.ma.array(dark, mask=m)
        prnu = not np.ma.getmaskarray(sum_)[2:-2, 2:-2].all()
    for order in (0, 1):
        check(ctx, sum_, dark, case['L'], case['Ld'], prnu, order)


def run_tiny(case, ctx):
    h, w, vals, Ld, mask = case
    dark = np.array(vals, np.int64).reshape(h, w)
    if mask is not None:
        dark = np.ma.array(dark, mask=np.array(mask, bool).reshape(h, w))
    check(ctx, dark * 0 + 1, dark, 3, Ld, prnu=False)


def run_impulse(case, ctx):
    """a single deviating pixel, at every position, in bright or dark"""
    h, w, pos, amp, L, Ld, where = case
    b = np.full((h, w), 100 * L, np.int64)
    d = np.full((h, w), 10 * Ld, np.int64)
    (b if where == 'bright' else d)[pos // w, pos % w] += amp
    check(ctx, b, d, L, Ld)


def spaces(tier):
    deep = tier == 'thorough'
    cfg = list(deviations(DEFAULT, AXES, 3 if deep else 2))
    tiny = []
    for h, w, al in ((1, 3, (0, 1, 5, 255, 256, 257)), (2, 2, (0, 1, 7)),
                     (1, 4, (0, 2, 600))) + \
            (((2, 3, (0, 1, 4)), (2, 2, (0, 1, 7, 511, 4095)))
             if deep else ()):
        for v in itertools.product(al, repeat=h * w):
            for Ld in (2, 5):
                tiny.append((h, w, v, Ld, None))
            if len(al) < 6 or deep:
                for m in itertools.product((0, 1), repeat=h * w):
                    if any(m) and not all(m):
                        tiny.append((h, w, v, 3, m))
    imp = []
    for h, w in ((5, 5), (5, 6), (7, 5)):
        for pos in range(h * w):
            for amp in (1, -1, 1000):
                for L, Ld in ((2, 2), (2, 3), (4, 2)):
                    for where in ('bright', 'dark'):
                        imp.append((h, w, pos, amp, L, Ld, where))
    big = []
    for n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 513) + \
            ((1023, 1025) if deep else ()):
        for s in ((n, 7), (7, n)):
            for m in (None, 'green') if n % 2 else (None,):
                big.append(dict(DEFAULT, shape=s, mask=m, bhot=n % 9,
                                dhot=n % 5))
    for s in ((70, 130), (130, 70)):
        for k in ('noise', 'shade'):
            for m in (None, 'red'):
                big.append(dict(DEFAULT, shape=s, bk=k, dk=k, mask=m, L=16))
    return [Space('image sizes', big, run_config, chunk=1,
                  bound='sizes around the powers of two in each direction'),
            Space('configurations', cfg, run_config,
                  bound='up to %d deviations, 9 axes' % (3 if deep else 2)),
            Space('tiny dark images', tiny, run_tiny,
                  bound='all images over the alphabets, every mask'),
            Space('single defects', imp, run_impulse,
                  bound='every position')]
