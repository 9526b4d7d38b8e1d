"""C12: non-uniformities"""
from fractions import Fraction as F
import itertools
import math
import numpy as np
from ..core import Space
from ..util import big_shapes, texture
from .. import ref
from .c06 import data_of, pattern
from emva1288.process import Results1288, Data1288

ID = 'C12'
RULE = ('every combination of bounded spatial statistics (zero, tiny and '
        'negative contributions), image shapes and stack sizes for the bright '
        'and for the dark image, and every stack of structured images; '
        'against exact rational arithmetic')
ASSUME = ['shapes with rows*columns > rows + columns or a single row or '
          'column; bright mean above dark mean',
          'a variance within rounding (1e-9) of zero may give NaN or zero']

PLAIN = ('sigma_2_y_stack', 's_2_y_measured', 's_2_y', 's_2_y_cav',
         's_2_y_rav', 's_2_y_col', 's_2_y_row', 's_2_y_pixel')
NUM = ('avg_var', 'var_mean', 'avg_var_cav', 'avg_var_rav')
PARTS = (('', 'total'), ('_row', 'row'), ('_col', 'col'),
         ('_pixel', 'pixel'))


def temporal(K):
    Y = np.array([10., 20., 30., 40.])
    return {'texp': np.full(4, 1e6), 'u_p': Y * 10, 'u_y': Y + 5,
            'u_ydark': np.full(4, 5.), 's2_y': K * Y + .5,
            's2_ydark': np.full(4, .5)}


def root(ctx, label, got, var, factor, scale, exact=False):
    """got = factor * sqrt(var), NaN when var is negative"""
    ctx.step()
    var = float(var)
    if exact:
        # zero without any rounding: not negative
        ctx.eq(label + ' is zero', float(got), 0.)
        return
    eps = 1e-9 * scale
    if abs(var) <= eps:
        ctx.true(label + ' zero or NaN',
                 got != got or abs(got) <= factor * math.sqrt(2 * eps), got)
    elif var < 0:
        ctx.true(label + ' NaN for negative variance', got != got, got)
    else:
        ctx.close(label, float(got), factor * math.sqrt(var), 1e-7)


def verify(ctx, r, b, d, K, scale):
    want = ref.nonuniformity(b, d, K)
    for k in PLAIN:
        for post in ('', '_dark'):
            ctx.step()
            ctx.close(k + post, float(getattr(r, k + post)), want[k + post],
                      1e-8, 1e-10 * scale)
    for post in ('', '_dark'):
        g = {k: float(getattr(r, k + post)) for k in PLAIN}
        ctx.close('parts add up' + post, g['s_2_y_col'] + g['s_2_y_row'] +
                  g['s_2_y_pixel'], g['s_2_y'], 1e-8, 1e-9 * scale)
    dm = float(b['avg_mean'] - d['avg_mean'])
    # nothing but zeros; the same numbers twice
    none = not any(d[k] for k in NUM)
    same = all(b[k] == d[k] for k in NUM + ('L', 'M', 'N'))
    for post, part in PARTS:
        name = 's_2_y' + post
        vd, vb = want[name + '_dark'], want[name]
        root(ctx, 'DSNU1288' + post, getattr(r, 'DSNU1288' + post), vd,
             1 / K, scale, none)
        root(ctx, 'PRNU1288' + post, getattr(r, 'PRNU1288' + post), vb - vd,
             100 / dm, scale, same)
    root(ctx, 'DSNU1288_DN', r.DSNU1288_DN(), want['s_2_y_dark'], 1, scale,
         none)
    ctx.outcome({k: round(v, 7) for k, v in want.items()})


def stats(c):
    L, M, N, av, vm, cav, rav, mean = c
    return {'L': L, 'M': M, 'N': N, 'avg_var': F(av), 'var_mean': F(vm),
            'avg_var_cav': F(cav), 'avg_var_rav': F(rav),
            'avg_mean': F(mean)}


def run_stats(case, ctx):
    bc, dc, K, order = case
    b, d = stats(bc), stats(dc)
    sp = {}
    for post, s in (('', b), ('_dark', d)):
        for k, v in s.items():
            sp[k + post] = v if k in 'LMN' else np.float64(v)
    keep = dict(sp)
    r = Results1288({'temporal': temporal(K), 'spatial': sp})
    names = ['DSNU1288' + p for p, _ in PARTS] + \
        ['PRNU1288' + p for p, _ in PARTS]
    if order:
        for n in names[::-1]:
            getattr(r, n)
    scale = max(1., *[abs(float(s[k])) for s in (b, d)
                      for k in ('avg_var', 'var_mean', 'avg_var_cav',
                                'avg_var_rav')])
    M, N = b['M'], b['N']
    scale *= max(1., (M * N) / abs(M * N - M - N))
    verify(ctx, r, b, d, K, scale)
    ctx.eq('data unmodified', sp, keep)
    ctx.state(case)


def run_images(case, ctx):
    h, w, L, Ld, kb, kd, top, K = case
    b = pattern(kb, h, w, L, top, 3)
    b = [i + top // 4 + 3 for i in b]
    d = pattern(kd, h, w, Ld, top // 8, 1)
    sp = Data1288(data_of(b, d)).data['spatial']
    r = Results1288({'temporal': temporal(K), 'spatial': sp})
    sb, sd = ref.spatial_stats(b), ref.spatial_stats(d)
    verify(ctx, r, sb, sd, K, float(max(sb['avg_var'], sd['avg_var'],
                                        sb['var_mean'], sd['var_mean'], 1)))
    ctx.state(case)


def run_sizes(case, ctx):
    h, w, L, Ld = case
    b = [texture(h, w, k) + 700 + 9 * (np.arange(w) % 5) for k in range(L)]
    d = [texture(h, w, 50 + k, 97) for k in range(Ld)]
    sp = Data1288(data_of(b, d)).data['spatial']
    r = Results1288({'temporal': temporal(.5), 'spatial': sp})
    sb, sd = ref.spatial_stats(b), ref.spatial_stats(d)
    verify(ctx, r, sb, sd, .5, float(max(sb['avg_var'], sb['var_mean'])))
    ctx.state(case)


def run_pure(case, ctx):
    """a pattern of pure rows, columns or both is attributed to them"""
    h, w, kind, amp, K = case
    y, x = np.mgrid[:h, :w]
    col, row = amp * (x % 2), amp * (y % 3)
    img = {'cols': col, 'rows': row, 'both': col + row}[kind] + 100
    sp = Data1288(data_of([img + 1000] * 2, [img] * 3)).data['spatial']
    r = Results1288({'temporal': temporal(K), 'spatial': sp})
    # variance of the column means / row means, and nothing in the rest
    for post in ('', '_dark'):
        c, q, p = (float(getattr(r, 's_2_y_%s%s' % (k, post)))
                   for k in ('col', 'row', 'pixel'))
        tot = float(getattr(r, 's_2_y' + post))
        ctx.step(4)
        if kind == 'cols':
            ctx.true('columns', c > 0 and abs(q) < .2 * c / h * 5 and
                     abs(p) < 5 * c / h, c, q, p)
        if kind == 'rows':
            ctx.true('rows', q > 0 and abs(c) < .2 * q / w * 5 and
                     abs(p) < 5 * q / w, c, q, p)
        ctx.close('sum', c + q + p, tot, 1e-8)
    ctx.state(case)


def spaces(tier):
    deep = tier == 'thorough'
    cases = []
    base_b = (10, 6, 8, '4.25', '8', '.5', '.75', '200')
    base_d = (10, 6, 8, '2.25', '8', '.25', '.125', '20')
    L = (2, 3, 50)
    shp = ((6, 8), (8, 6), (3, 3), (3, 2), (2, 3), (1, 7), (7, 1),
           (480, 640))
    av, vm = ('0', '4.25', '100', '.0001'), ('0', '8', '900')
    cr = ('-.125', '0', '.5', '3')
    mean = ('200', '20.5')
    for l in L:
        for m, n in shp:
            for a in av:
                for v in vm:
                    for c in cr:
                        for q in cr:
                            x = (l, m, n, a, v, c, q)
                            d = base_d[:1] + (m, n) + base_d[3:]
                            b = base_b[:1] + (m, n) + base_b[3:]
                            cases.append((x + ('200',), d, .5, 0))
                            cases.append((b, x + ('20',), .5, 1))
                            if deep:
                                cases.append((x + ('20.5',), d, 10., 1))
                                y = (l + 1, m, n, v, a, q, c, '0')
                                cases.append((x + ('64',), y, .1, 0))
    # bright and dark statistics that agree
    for l in L:
        for m, n in shp:
            for a in av:
                for v in vm:
                    for c in ('0', '.5'):
                        for q in ('0', '3'):
                            x = (l, m, n, a, v, c, q)
                            cases.append((x + ('200',), x + ('20',), .5, 0))
    imgs = [(h, w, l, ld, kb, kd, top, K)
            for h, w in ((3, 2), (2, 3), (4, 4), (1, 6), (6, 1), (5, 7),
                         (16, 12), (12, 16))
            for l, ld in ((2, 2), (3, 7), (16, 2))
            for kb in ('flat', 'rows', 'cols', 'both', 'pixels', 'hot')
            for kd in ('flat', 'rows', 'cols', 'hot')
            for top in (255, 4095) + ((65535, 1023) if deep else ())
            for K in ((.25, 4.) if not deep else (.01, .25, 1., 4., 20.))]
    imgs += [(5, 7, 3, 7, kb, kd, 4095, K) for kb in ('rows', 'both', 'hot')
             for kd in ('flat', 'rows', 'cols', 'hot')
             for K in (1e-6, .0005, .009, .05, 60., 1e4)]
    pure = [(h, w, k, a, K) for h in (9, 30) for w in (8, 32)
            for k in ('cols', 'rows', 'both') for a in (3, 50, 1000)
            for K in (.0005, .5, 2., 1000.)]
    sizes = [s + (3, 2 + sum(s) % 2) for s in big_shapes(deep)]
    return [Space('image sizes', sizes, run_sizes, chunk=1,
                  bound='sizes around the powers of two in each direction'),
            Space('statistics', cases, run_stats,
                  bound='full product of the alphabets for one image'),
            Space('image stacks', imgs, run_images,
                  bound='product of shapes, stack sizes and patterns'),
            Space('pure patterns', pure, run_pure,
                  bound='product of shapes, directions, amplitudes')]
