"""C06: spatial statistics"""
import itertools
import numpy as np
from ..core import Space
from ..util import big_shapes, laid_out, LAYOUTS, texture
from .. import ref
from emva1288.process import Data1288

ID = 'C06'
RULE = ('every stack of tiny images over a value alphabet and every pair of '
        'shapes and stack sizes with structured patterns (rows, columns, '
        'pixels, ramps); against exact rational arithmetic on the images; '
        'every wrong number of series')
ASSUME = ['the reduced data are those of the loader (C03, C04)']
KEYS = ('L', 'M', 'N', 'avg_mean', 'avg_var', 'var_mean', 'avg_var_cav',
        'avg_var_rav')
TEMP = {1e6: {0.0: {'sum': 4, 'pvar': 2, 'dmean': 0.0},
              5.0: {'sum': 40, 'pvar': 20, 'dmean': 0.0}}}


def data_of(bright, dark, cast=None, t=1e6, order=0):
    b, d = ref.reduce_stack(bright), ref.reduce_stack(dark)
    if cast:
        for x in (b, d):
            x['sum'] = x['sum'].astype(cast)
            x['pvar'] = x['pvar'].astype(cast)
    h, w = bright[0].shape
    sp = {t: {0.0: d, 25.5: b} if order == 0 else {25.5: b, 0.0: d}}
    return {'width': w, 'height': h, 'temporal': TEMP, 'spatial': sp}


def verify(ctx, got, bright, dark, top, t=1e6):
    ctx.eq('texp', float(got['texp']), t)
    ctx.eq('u_p', float(got['u_p']), 25.5)
    for post, st in (('', bright), ('_dark', dark)):
        want = ref.spatial_stats(st)
        for k in KEYS:
            if k in 'LMN':
                ctx.eq(k + post, int(got[k + post]), want[k])
            else:
                ctx.close(k + post, float(got[k + post]), float(want[k]),
                          1e-10, 1e-13 * (top + 1) *
                          (1 if k == 'avg_mean' else top + 1))
        ctx.eq('sum' + post, got['sum' + post],
               ref.reduce_stack(st)['sum'])
    # the images can be subtracted, whatever type they came in
    ctx.eq('sum minus dark sum',
           np.asarray(got['sum']) - np.asarray(got['sum_dark']),
           ref.reduce_stack(bright)['sum'].astype(object) -
           ref.reduce_stack(dark)['sum'].astype(object))


def run_small(case, ctx):
    h, w, L, vals, top = case
    n = h * w
    st = [np.array(vals[k * n:(k + 1) * n]).reshape(h, w) for k in range(L)]
    dark = [s[::-1, ::-1] // 2 for s in st[:2]] + [st[0] * 0]
    ctx.step()
    got = Data1288(data_of(st, dark)).data['spatial']
    verify(ctx, got, st, dark, top)
    ctx.state(h, w, L, vals)
    ctx.outcome(ref.spatial_stats(st)['avg_var'])


def pattern(kind, h, w, L, top, seed):
    y, x = np.mgrid[:h, :w]
    base = {'flat': y * 0, 'rows': y, 'cols': x, 'both': y * 3 + x,
            'pixels': (y * 7 + x * 5 + y * x * 3) % 11,
            'hot': ((y == h // 2) & (x == 0)) * 9}[kind]
    out = []
    for k in range(L):
        noise = (y * 13 + x * 29 + k * 17 + k * y * x + seed) % 5
        out.append(np.minimum(base * max(1, top // 64) + noise * (k % 3) +
                              top // 8, top))
    return out


def run_shape(case, ctx):
    h, w, L, Ld, kind, top, cast, order, t = case
    b = pattern(kind, h, w, L, top, 3)
    d = pattern('pixels' if kind != 'pixels' else 'cols', h, w, Ld,
                top // 16, 1)
    data = data_of(b, d, cast, t, order)
    before = repr(data)
    ctx.step()
    got = Data1288(data).data['spatial']
    verify(ctx, got, b, d, top, t)
    ctx.true('input unmodified', repr(data) == before)
    # transposing swaps rows and columns and nothing else
    ctx.step()
    tr = Data1288(data_of([i.T for i in b], [i.T for i in d], cast, t,
                          order)).data['spatial']
    swap = {'M': 'N', 'N': 'M', 'avg_var_cav': 'avg_var_rav',
            'avg_var_rav': 'avg_var_cav'}
    for post in ('', '_dark'):
        for k in KEYS:
            ctx.close('transposed ' + k, float(tr[swap.get(k, k) + post]),
                      float(got[k + post]), 1e-10,
                      1e-12 * (top + 1) ** 2)
    ctx.state(case)


def run_big(case, ctx):
    """values and sums beyond 16 and 32 bits"""
    h, w, L, Ld, top, low, cast = case
    y, x = np.mgrid[:h, :w]
    st = [np.int64(top) - (y * 3 + x * 7 + k) % 5 for k in range(L)]
    dk = [np.int64(low) + (y * 5 + x + k * k) % 3 for k in range(Ld)]
    b, d = ref.reduce_stack(st), ref.reduce_stack(dk)
    for s in (b, d):
        s['sum'] = s['sum'].astype(cast)
        s['pvar'] = s['pvar'].astype(cast)
    ctx.step()
    got = Data1288({'width': w, 'height': h, 'temporal': TEMP,
                    'spatial': {1e6: {0.0: d, 25.5: b}}}).data['spatial']
    for k in 'LMN':
        ctx.eq(k, int(got[k]), ref.spatial_stats(st)[k])
    for post, s in (('', st), ('_dark', dk)):
        want = ref.spatial_stats(s)
        ctx.eq('sum' + post, [int(v) for v in np.ravel(got['sum' + post])],
               [sum(int(i[p]) for i in s) for p in np.ndindex(h, w)])
        ctx.close('mean' + post, float(got['avg_mean' + post]),
                  float(want['avg_mean']), 1e-12)
        ctx.close('temporal' + post, float(got['var_mean' + post]),
                  float(want['var_mean']), 1e-9, 1e-9)
    ctx.state(case)


def run_size(case, ctx):
    h, w, L, Ld, lay = case
    b = [texture(h, w, k, 4096) for k in range(L)]
    d = [texture(h, w, 9 + k, 64) for k in range(Ld)]
    data = data_of(b, d)
    if lay:
        for s in data['spatial'][1e6].values():
            for k in ('sum', 'pvar'):
                s[k] = laid_out(s[k], lay)
    ctx.step()
    verify(ctx, Data1288(data).data['spatial'], b, d, 4096)
    ctx.state(case)


def run_wrong(case, ctx):
    structure = case
    s = pattern('pixels', 2, 3, 3, 255, 0)
    sp = {}
    for t, ps in structure:
        sp[t] = {p: ref.reduce_stack(s) for p in ps}
    ctx.raises('wrong number of spatial series', ValueError, Data1288,
               {'width': 3, 'height': 2, 'temporal': TEMP, 'spatial': sp})
    ctx.state(case)


def spaces(tier):
    deep = tier == 'thorough'
    sm = []
    for h, w, L, al in ((1, 2, 3, (0, 1, 255)), (2, 1, 3, (0, 7, 65535)),
                        (2, 2, 2, (0, 1)), (2, 2, 3, (0, 255)),
                        (1, 3, 3, (0, 1))) + \
            (((2, 3, 2, (0, 1)), (3, 2, 2, (0, 4095)), (1, 3, 2, (0, 1, 9)),
              (1, 2, 5, (0, 1, 2))) if deep else ()):
        for v in itertools.product(al, repeat=h * w * L):
            sm.append((h, w, L, v, max(al)))
    sh = []
    sizes = range(1, 7 if deep else 6)
    for h in sizes:
        for w in sizes:
            if h * w < 2:
                continue
            for L, Ld in ((3, 3), (3, 8), (10, 4), (2, 2)):
                for kind in ('flat', 'rows', 'cols', 'both', 'pixels',
                             'hot'):
                    sh.append((h, w, L, Ld, kind, 4095, None, 0, 1e6))
    for h, w in ((3, 5), (5, 3), (9, 2), (2, 9), (1, 12)):
        for L, Ld in ((50, 50), (50, 100), (7, 3)) + \
                (((100, 50), (400, 16)) if deep else ()):
            for top in (1, 255, 65535):
                for cast in (None, 'uint64', 'int32' if top < 256 else
                             'uint64'):
                    for order in (0, 1):
                        sh.append((h, w, L, Ld, 'both', top, cast, order,
                                   2.5))
    wr = [[], [(1.0, [])], [(1.0, [0.0])], [(1.0, [5.0])],
          [(1.0, [5.0, 6.0])], [(1.0, [0.0, 5.0, 6.0])],
          [(1.0, [0.0, 5.0]), (2.0, [0.0, 5.0])],
          [(1.0, [0.0]), (2.0, [5.0])], [(1.0, [0.0, 5.0]), (2.0, [])],
          [(1.0, [5.0, 6.0, 7.0])]]
    big = [(h, w, L, Ld, top, low, c)
           for h, w in ((2, 2), (1, 5), (4, 3))
           for L, Ld in ((4, 4), (9, 3), (400, 50))
           for top in (2 ** 16 - 1, 2 ** 20, 2 ** 31 - 1, 2 ** 32 - 1)
           for low in (0, 2 ** 16, 2 ** 31)
           for c in ('int64', 'uint64')]
    siz = [(h, w, L, Ld, '') for h, w in big_shapes(
        deep, (1, 3), ((130, 257),)) for L, Ld in ((2, 3),)
        if h * w < 200000]
    lay = [(h, w, 3, 2, l) for h, w in ((3, 4), (4, 3), (1, 6), (9, 7))
           for l in LAYOUTS]
    return [Space('image sizes', siz, run_size,
                  bound='sizes around powers of two up to %d' % (
                      4097 if deep else 1025)),
            Space('memory layouts', lay, run_size,
                  bound='%d layouts' % len(LAYOUTS)),
            Space('large values', big, run_big,
                  bound='values up to 2**32 - 1'),
            Space('all small stacks', sm, run_small,
                  bound='all stacks of tiny images over the alphabets'),
            Space('shapes', sh, run_shape,
                  bound='all shapes up to %d x %d' % (max(sizes),
                                                      max(sizes))),
            Space('wrong series', wr, run_wrong, bound='listed')]
