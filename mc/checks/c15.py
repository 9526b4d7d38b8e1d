"""C15: the high-pass filter"""
import numpy as np
from ..core import Space
from ..util import (all_arrays, big_shapes, frozen, laid_out, LAYOUTS,
                    texture)
from emva1288.process import routines

ID = 'C15'
RULE = ('every image of a tiny shape over a small value alphabet, every '
        'impulse position on every shape d..d+k, every mask of a tiny shape '
        'and every periodic (colour filter) mask tile; a case is one image')
ASSUME = ['alphabets and shapes as listed in the spaces',
          'reference: explicit loop over the window of every pixel']


def reference(img, d):
    """(img, multiplicator) by definition, or None if to be refused"""
    masked = isinstance(img, np.ma.MaskedArray)
    data = np.ma.getdata(img)
    mask = np.ma.getmaskarray(img) if masked else np.zeros(data.shape, bool)
    s = d // 2
    h, w = data.shape
    if data.dtype.kind in 'iub':
        # the values of the filter, whatever the type of the image
        data = data.astype(np.int64)
    out = np.zeros((h - 2 * s, w - 2 * s), dtype=data.dtype)
    omask = mask[s:h - s, s:w - s]
    counts = set()
    for y in range(s, h - s):
        for x in range(s, w - s):
            if mask[y, x]:
                continue
            win = data[y - s:y + s + 1, x - s:x + s + 1]
            ok = ~mask[y - s:y + s + 1, x - s:x + s + 1]
            n = int(ok.sum())
            counts.add(n)
            out[y - s, x - s] = n * data[y, x] - win[ok].sum()
    if len(counts) != 1:
        return None, counts
    return (np.ma.array(out, mask=omask) if masked else out), counts.pop()


def fast_reference(img, d):
    """the same with shifted images"""
    data = np.ma.getdata(img).astype(np.int64)
    ok = ~np.ma.getmaskarray(img)
    s = d // 2
    h, w = data.shape
    tot, cnt = 0, 0
    for y in range(d):
        for x in range(d):
            sl = np.s_[y:h - d + 1 + y, x:w - d + 1 + x]
            tot = tot + np.where(ok[sl], data[sl], 0)
            cnt = cnt + ok[sl]
    mid = ok[s:h - s, s:w - s]
    n = set(cnt[mid].tolist())
    if len(n) != 1:
        return None, n
    n = n.pop()
    out = np.where(mid, n * data[s:h - s, s:w - s] - tot, 0)
    return (np.ma.array(out, mask=~mid) if isinstance(
        img, np.ma.MaskedArray) else out), n


def compare(ctx, img, d, scale=1, ref=None):
    keep = frozen(img)
    want, n = (ref or reference)(img, d)
    ctx.step()
    if want is None:
        if not n:        # nothing unmasked: no statement
            return
        ctx.raises('constant count required', ValueError,
                   routines.high_pass_filter, img, d)
        ctx.outcome('refused')
    else:
        r = routines.high_pass_filter(img, d)
        ctx.eq('multiplicator', float(r['multiplicator']), float(n))
        got = r['img']
        if want.dtype.kind == 'i':
            ctx.true('stays integer', got.dtype.kind == 'i', got.dtype)
            if isinstance(want, np.ma.MaskedArray):
                ctx.eq('mask', np.ma.getmaskarray(got),
                       np.ma.getmaskarray(want))
                ok = ~np.ma.getmaskarray(want)
                ctx.eq('filtered', np.ma.getdata(got)[ok],
                       np.ma.getdata(want)[ok])
            else:
                ctx.true('plain', not np.ma.isMaskedArray(got))
                ctx.eq('filtered', got, want)
        else:
            ctx.close('filtered', got, want, 1e-9, 1e-6 * scale)
        ctx.outcome(want)
    ctx.true('input unmodified', np.array_equal(
        np.ma.getdata(img), np.ma.getdata(keep)) and np.array_equal(
        np.ma.getmaskarray(img), np.ma.getmaskarray(keep)))
    ctx.state(img.shape, d, keep)


def run_exh(case, ctx):
    h, w, d, flat = case
    compare(ctx, np.array(flat, dtype=np.int64).reshape(h, w), d)


def run_impulse(case, ctx):
    h, w, d, dt, val, base, masked = case
    for p in range(h * w):
        img = np.full((h, w), base, dtype=dt)
        img += (np.arange(h * w).reshape(h, w) % 7).astype(dt)
        img[p // w, p % w] += np.array(val, dtype=dt)
        if masked == 'nomask':
            img = np.ma.array(img)
        elif masked == 'falsemask':
            img = np.ma.array(img, mask=np.zeros((h, w), bool))
        compare(ctx, img, d, abs(val) + abs(base) + 1)


def run_mask(case, ctx):
    h, w, d, bits, dt = case
    mask = np.array([(bits >> i) & 1 for i in range(h * w)],
                    bool).reshape(h, w)
    img = (np.arange(h * w) ** 2 % 23 + 100).reshape(h, w).astype(dt)
    compare(ctx, np.ma.array(img, mask=mask), d)


def run_tile(case, ctx):
    h, w, d, th, tw, bits = case
    tile = np.array([(bits >> i) & 1 for i in range(th * tw)],
                    bool).reshape(th, tw)
    y, x = np.mgrid[:h, :w]
    mask = tile[y % th, x % tw]
    img = (np.arange(h * w) ** 2 % 65521 * 50).reshape(h, w).astype(np.int64)
    compare(ctx, np.ma.array(img, mask=mask), d)


def run_even(case, ctx):
    d, h, w, masked = case
    img = np.arange(h * w).reshape(h, w)
    if masked:
        y, x = np.mgrid[:h, :w]
        img = np.ma.array(img, mask=(y + x) % 2 == 1)
    keep = frozen(img)
    ctx.raises('even size', ValueError, routines.high_pass_filter, img, d)
    ctx.eq('input unmodified', img, keep)
    ctx.state(d, h, w, masked)


def run_big(case, ctx):
    h, w, d, dt, tile, lay = case
    img = texture(h, w, 3, 251 if dt == 'uint8' else 60000).astype(dt)
    if tile:
        y, x = np.mgrid[:h, :w]
        img = np.ma.array(img, mask=(y % 2 * 2 + x % 2) % tile == 0)
    if h * w < 200:
        a, b = reference(img, d), fast_reference(img, d)
        assert a[1] == b[1] and np.array_equal(np.ma.filled(a[0], -1),
                                               np.ma.filled(b[0], -1))
    compare(ctx, laid_out(img, lay), d, ref=fast_reference)


def spaces(tier):
    deep = tier == 'thorough'
    s = []
    s.append(Space('image sizes', [
        (h, w, d, dt, t, '') for h, w in big_shapes(deep, (7, 12))
        for d, dt in ((5, 'int64'), (3, 'uint16'))
        for t in (0, 3)] + [
        (h, w, d, dt, t, '') for d in (7, 9, 11, 13, 15, 21, 31)
        for h, w in ((d, d), (d, 65), (65, d + 1), (66, 70), (129, d),
                     (d + 2, 130), (130, 129)) + (
            ((300, 257), (d, 1030), (1030, d), (520, 520)) if deep else ())
        for dt, t in (('int64', 0), ('uint8', 0), ('uint16', 0),
                      ('int64', 3), ('int64', 2))], run_big,
        bound='sizes around powers of two up to %d' % (4097 if deep
                                                       else 1025)))
    s.append(Space('memory layouts', [
        (h, w, d, dt, t, l) for h, w in ((7, 7), (8, 11), (12, 9))
        for d in (3, 5) for dt in ('int64', 'uint8') for t in (0, 2, 3)
        for l in LAYOUTS], run_big, bound='%d layouts' % len(LAYOUTS)))
    s.append(Space('even sizes', [(d, h, w, m) for d in (2, 4, 6, 8)
                                  for h in (8, 9) for w in (8, 11)
                                  for m in (0, 1)], run_even,
                   bound='d 2..8 even, masked and unmasked'))
    exh = [(3, 3, 3, f) for f in all_arrays((3, 3), (0, 1, 5)[:3 if deep
                                                              else 2])]
    exh += [(3, 4, 3, f) for f in all_arrays((3, 4), (0, 1))]
    if deep:
        exh += [(4, 4, 3, f) for f in all_arrays((4, 4), (0, 1))]
    s.append(Space('all images', exh, run_exh,
                   bound='all images 3x3, 3x4%s' % (', 4x4' if deep else '')))
    imp = []
    for d in (3, 5, 7, 9) if deep else (3, 5, 7):
        k = 5 if deep else 3
        for h in range(d, d + k):
            for w in range(d, d + k):
                for dt, val, base in (('int64', 1, 0),
                                      ('int64', 65535 * 50, 65535 * 25),
                                      ('int64', -3, -9),
                                      ('int64', 2 ** 40, 2 ** 41),
                                      ('int32', 4095, 100),
                                      ('int32', 2 ** 30, 2 ** 29),
                                      ('uint8', 200, 40),
                                      ('uint16', 65000, 500),
                                      ('uint32', 2 ** 31, 2 ** 30),
                                      ('uint64', 4, 2 ** 34),
                                      ('bool', 0, 0),
                                      ('float32', .5, 1),
                                      ('float64', 0.25, 1.5)):
                    for m in ('', 'nomask', 'falsemask'):
                        if m and dt not in ('int64', 'uint16'):
                            continue
                        imp.append((h, w, d, dt, val, base, m))
    s.append(Space('impulses', imp, run_impulse,
                   bound='every impulse position, shapes d..d+%d' % (k - 1)))
    msk = [(3, 4, 3, b, dt) for dt in ('int64', 'uint8')
           for b in range(2 ** 12)]
    if deep:
        msk += [(4, 4, 3, b, 'int64') for b in range(2 ** 16)]
    s.append(Space('all masks', msk, run_mask,
                   bound='all masks of 3x4%s' % (' and 4x4' if deep else '')))
    til = []
    for th, tw in ((1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)) + \
            (((2, 4), (4, 2), (3, 3)) if deep else ()):
        for b in range(2 ** (th * tw) - 1):
            for d in (3, 5, 7):
                for h, w in ((d + th + 1, d + tw + 2), (d + 3, d + 3)):
                    til.append((h, w, d, th, tw, b))
    s.append(Space('mask tiles', til, run_tile,
                   bound='all periodic masks up to 3x2%s' %
                   (', 2x4, 3x3' if deep else '')))
    return s
