"""C33: what the plots draw"""
import itertools
import math
import re
import numpy as np
from matplotlib.figure import Figure
from matplotlib.backends.backend_agg import FigureCanvasAgg
from ..core import Space
from ..util import deviations
from .. import figs, ref
from .c09 import curve, DEFAULT as CURVE, AXES as CAXES
from .c14 import image, bayer
from .c16 import rows_of, spectrum
from emva1288.process import Results1288, plotting

ID = 'C33'
RULE = ('every standard plot of every data set within a number of '
        'deviations of its curve and of its images; every line against the '
        'data, the results of a fresh object and an independent Fourier '
        'transform')
ASSUME = ['lines are told apart by label and identified by the id of the '
          'test', 'figures are not rendered (C31 renders them)',
          'histogram values are those of C14']
UNITS = {'PTC': ('DN', 'DN$^2$', 'linear'),
         'SNR': ('photons', None, 'log'),
         'Sensitivity': ('photons', 'DN', 'linear'),
         'UyDark': ('ns', 'DN', 'linear'),
         'Linearity': ('photons', 'DN', 'linear'),
         'DeviationLinearity': ('photons', '%', 'linear'),
         'HorizontalSpectrogramPRNU': ('periods/pixel', '%', 'log'),
         'VerticalSpectrogramPRNU': ('periods/pixel', '%', 'log'),
         'HorizontalSpectrogramDSNU': ('periods/pixel', 'DN', 'log'),
         'VerticalSpectrogramDSNU': ('periods/pixel', 'DN', 'log'),
         'LogarithmicHistogramDSNU': ('DN', None, 'log'),
         'LogarithmicHistogramPRNU': ('DN', None, 'log'),
         'AccumulatedLogHistogramDSNU': ('DN', None, 'log'),
         'AccumulatedLogHistogramPRNU': ('DN', None, 'log')}
TEMPORAL = ['PTC', 'SNR', 'Sensitivity', 'UyDark', 'Linearity',
            'DeviationLinearity']
IMAGE = ['HorizontalSpectrogramPRNU', 'HorizontalSpectrogramDSNU',
         'VerticalSpectrogramPRNU', 'VerticalSpectrogramDSNU',
         'LogarithmicHistogramDSNU', 'LogarithmicHistogramPRNU',
         'AccumulatedLogHistogramDSNU', 'AccumulatedLogHistogramPRNU',
         'HorizontalProfile', 'VerticalProfile']
AXVLINE = [0., 1.]


def figure():
    f = Figure()
    FigureCanvasAgg(f)
    return f


def draw(name, *tests):
    """the plot of these tests -> (figure, plot object)"""
    f = figure()
    p = getattr(plotting, 'Plot' + name)(f)
    for t in tests:
        p.plot(t)
    p.rearrange()
    return f, p


def role(ax):
    """bright or dark axes of a profile"""
    return {'PRNU': 'bright', 'DSNU': 'dark'}.get(ax.get_title(), '')


def expected(name, r):
    """[(axes role, label, x, y)]; the label may be a pattern"""
    t = {k: np.asarray(v, float) for k, v in r.temporal.items()}
    Y = t['u_y'] - t['u_ydark']
    if name == 'PTC':
        S = t['s2_y'] - t['s2_ydark']
        i, j, s = r.index_sensitivity_min, r.index_sensitivity_max, \
            r.index_u_ysat
        return [('', 'Data', Y, S), ('', 'Fit', Y, float(r.K) * Y),
                ('', 'Saturation', [Y[s]], [S[s]]),
                ('', 'Fit range', [Y[i], Y[j]], [S[i], S[j]])]
    if name == 'Sensitivity':
        i, j = r.index_sensitivity_min, r.index_sensitivity_max
        p = t['u_p']
        return [('', 'Data', p, Y), ('', 'Fit', p, float(r.R) * p),
                ('', 'Fit range', [p[i], p[j]], [Y[i], Y[j]])]
    if name == 'UyDark':
        return [('', 'Data', t['texp'], t['u_ydark'])]
    if name in ('Linearity', 'DeviationLinearity'):
        i, j = int(r.index_linearity_min), int(r.index_linearity_max)
        p = t['u_p']
        lin = ref.linearity(t, i, j)
        if name == 'Linearity':
            a, b = lin['fit_slope'], lin['fit_offset']
            return [('', 'Data', p, Y), ('', 'Fit', p, a * p + b),
                    ('', 'Fit range', [p[i], p[j]], [Y[i], Y[j]])]
        d = np.asarray(lin['relative_deviation'], float)
        return [('', 'Data', p[i:j + 1], d[i:j + 1]),
                ('', 'Fit range', [p[i], p[j]], [d[i], d[j]])]
    if 'Spectrogram' in name:
        rot = name.startswith('Vertical')
        dark = r.spatial['sum_dark'] / float(r.spatial['L_dark'])
        if name.endswith('DSNU'):
            img, scale = dark, 1.
            lines = [('$DSNU_{1288.DN}$', r.DSNU1288_DN()),
                     (r'$\sigma^2_{y.stack.dark}$',
                      sqrt(r.sigma_2_y_stack_dark))]
        else:
            img = r.spatial['sum'] / float(r.spatial['L']) - dark
            scale = 100. / float(np.ma.mean(img))
            lines = [('$PRNU_{1288}$', r.PRNU1288),
                     (r'$\sigma^2_{y.stack}$',
                      sqrt(r.sigma_2_y_stack) * scale)]
        rows = rows_of(img.T if rot else img)
        p, _, C = spectrum(rows, 1)
        x = np.arange(C // 2 + 1) / float(C)
        return [('', 'Data', x, scale * np.sqrt(p))] + \
            [('', n, AXVLINE, [v, v]) for n, v in lines]
    if 'Histogram' in name:
        h = getattr(r, {'LogarithmicHistogramDSNU': 'histogram_DSNU',
                        'LogarithmicHistogramPRNU': 'histogram_PRNU',
                        'AccumulatedLogHistogramDSNU':
                        'histogram_DSNU_accumulated',
                        'AccumulatedLogHistogramPRNU':
                        'histogram_PRNU_accumulated'}[name])
        out = [('', 'Data', h['bins'], h['values'])]
        if name.startswith('Log'):
            out.append(('', 'Model', h['bins'], h['model']))
        return out
    if name.endswith('Profile'):
        out = []
        dark = r.spatial['sum_dark'] / float(r.spatial['L_dark'])
        light = r.spatial['sum'] / float(r.spatial['L']) - dark
        for where, img in (('bright', light), ('dark', dark)):
            if name.startswith('V'):
                img = img.T
            m = np.ma.getmaskarray(img)
            d = np.ma.getdata(img)
            cols = [j for j in range(d.shape[1]) if not m[:, j].all()]
            val = [[d[i, j] for i in range(d.shape[0]) if not m[i, j]]
                   for j in cols]
            k = d.shape[0] // 2
            if m[k].all():
                k += 1
            mid = [j for j in range(d.shape[1]) if not m[k, j]]
            L = {'Mean': (cols, [sum(v) / len(v) for v in val]),
                 'Min': (cols, [min(v) for v in val]),
                 'Max': (cols, [max(v) for v in val]),
                 'Mid': (mid, [d[k, j] for j in mid])}
            for lab, (x, y) in L.items():
                if name.startswith('V'):
                    x, y = y, x
                out.append((where, lab, x, y))
        return out


def sqrt(v):
    return math.sqrt(v) if v >= 0 else float('nan')


def snr(ctx, r, lines):
    """the signal to noise plot"""
    t = {k: np.asarray(v, float) for k, v in r.temporal.items()}
    lo, hi = float(r.u_p_min), float(r.u_p_sat)
    qe, sd = float(r.QE) / 100, float(r.sigma_d)
    s2q = 1 / 12. / float(r.K) ** 2
    by = {ln[2]: ln for ln in lines}
    ctx.eq('lines', sorted(k for k in by if not k.startswith('$')),
           ['Data', 'Ideal', 'Theoretical', 'Total SNR'])
    nz = t['s2_y'] != 0
    ctx.close('data', by['Data'][3:],
              [list(t['u_p'][nz]), list(((t['u_y'] - t['u_ydark'])[nz]) /
                                        np.sqrt(t['s2_y'][nz]))], 1e-6)
    for k in ('Theoretical', 'Ideal', 'Total SNR'):
        x = np.array(by[k][3])
        ctx.true(k + ' abscissae', len(x) >= 90 and abs(x[0] - lo) <=
                 1e-9 * hi and abs(x[-1] - hi) <= .02 * (hi - lo) and
                 np.all(np.diff(x) > 0) and
                 np.max(np.diff(x)) <= .011 * (hi - lo), x, lo, hi)
        noise = sd ** 2 + s2q + qe * x
        if k == 'Total SNR':
            noise = noise + r.DSNU1288 ** 2 + (r.PRNU1288 / 100. * qe *
                                               x) ** 2
        want = np.sqrt(x) if k == 'Ideal' else qe * x / np.sqrt(noise)
        ctx.close(k, np.array(by[k][4]), want, 1e-6)
    for sym, v in ((r'\mu_{p.min}', lo), (r'\mu_{p.sat}', hi)):
        ln = [x for x in lines if x[2].startswith('$' + sym)]
        ctx.eq('one line of ' + sym, len(ln), 1)
        ctx.close('position of ' + sym, ln[0][3:], [[v, v], AXVLINE], 1e-9)
        m = re.search(r'= ([-+0-9.e]+)\[p\]', ln[0][2])
        ctx.true('label of ' + sym, m and abs(float(m.group(1)) - v)
                 <= .0501, ln[0][2], v)


def tolerance(name, r):
    if name in ('Linearity',):
        y = np.abs(np.asarray(r.temporal['u_y'], float)).max()
        return 1e-6, 1e-6 * y
    if name == 'DeviationLinearity':
        return 1e-6, 1e-6
    if 'Spectrogram' in name:
        d = np.ma.getdata(r.spatial['sum_dark']) / r.spatial['L_dark']
        b = np.ma.getdata(r.spatial['sum']) / r.spatial['L']
        return 1e-6, 1e-5 * max(np.abs(d).max(), np.abs(b).max())
    return 1e-6, 1e-9


def compare(ctx, name, fig, fresh, id_):
    """all lines of one test"""
    lines = [[role(fig.axes[i])] + ln for ln in figs.lines(fig)
             for i in [ln[0]]]
    mine = [[ln[0]] + ln[3:] for ln in lines
            if ln[2].split(':')[0] == str(id_)]
    # [role, label, x, y]
    ctx.step()
    if name == 'SNR':
        snr(ctx, fresh, [[None, None] + ln[1:] for ln in mine])
        return len(mine)
    want = expected(name, fresh)
    ctx.eq(name + ' lines', sorted((ln[0], ln[1]) for ln in mine),
           sorted((w[0], w[1]) for w in want))
    rtol, atol = tolerance(name, fresh)
    for where, lab, x, y in want:
        got = [ln for ln in mine if (ln[0], ln[1]) == (where, lab)]
        label = '%s %s %s' % (name, where, lab)
        ctx.close(label + ' abscissae', got[0][2],
                  [float(v) for v in np.ravel(x)], rtol, 1e-9)
        ctx.close(label + ' ordinates', got[0][3],
                  [float(v) for v in np.ravel(y)], rtol, atol)
    return len(mine)


def look(ctx, name, fig, plot, tests):
    """axes: units, scales, limits that hide nothing"""
    ctx.true('title of ' + name, fig.axes[0].get_title() or
             fig.get_suptitle())
    if name in UNITS:
        ax = fig.axes[0]
        ux, uy, scale = UNITS[name]
        ctx.true('unit of the abscissa of ' + name, '[' in ax.get_xlabel()
                 and ux in ax.get_xlabel().split('[')[1], ax.get_xlabel())
        if uy:
            ctx.true('unit of the ordinate of ' + name,
                     '[' + uy + ']' in ax.get_ylabel(), ax.get_ylabel())
        ctx.eq('scale of ' + name, ax.get_yscale(), scale)
        ctx.eq('abscissa of ' + name, ax.get_xscale(),
               'log' if name == 'SNR' else 'linear')
        lo, hi = ax.get_ylim()
        if name == 'SNR':
            top = max(math.sqrt(t.u_p_sat) for t in tests)
            ctx.true('limits of SNR', lo == 1 and .97 * top <= hi <=
                     1.03 * top, lo, hi, top)
        if name.startswith('Logarithmic'):
            h = 'histogram_DSNU' if 'DSNU' in name else 'histogram_PRNU'
            top = max(np.max(getattr(t, h)['values']) for t in tests)
            ctx.true('limits of ' + name, lo <= 1 and hi >= top, lo, hi,
                     top)
        ctx.true('legend of ' + name, ax.get_legend() is not None)
    else:
        for ax in fig.axes:
            vert = name.startswith('V')
            lim = ax.get_xlim() if vert else ax.get_ylim()
            lab = ax.get_xlabel() if vert else ax.get_ylabel()
            ctx.true('unit of ' + name, '[DN]' in lab, lab)
            means = []
            for t in tests:
                d = t.spatial['sum_dark'] / float(t.spatial['L_dark'])
                b = t.spatial['sum'] / float(t.spatial['L']) - d
                means.append(float(np.ma.mean(b if role(ax) == 'bright'
                                              else d)))
            ctx.true('limits of ' + name, min(lim) <= min(means) and
                     max(lim) >= max(means), lim, means)


def spatial(c):
    h, w = c['shape']
    dark = image(c['dk'], h, w, c['Ld'], c['amp'], c['dhot'], 1)
    light = image(c['bk'], h, w, c['L'], c['amp'], c['bhot'], 2) + \
        50 * c['L'] + dark * c['L'] // c['Ld']
    if c['mask'] == 'nomask':
        light, dark = np.ma.array(light), np.ma.array(dark)
    elif c['mask']:
        m = np.zeros((h, w), bool)
        if c['mask'] in ('green', 'red'):
            m = bayer(h, w, c['mask'])
        elif c['mask'] == 'row':
            m[h // 2] = True
        elif c['mask'] == 'col':
            m[:, w // 2] = True
        light, dark = np.ma.array(light, mask=m), np.ma.array(dark, mask=m)
    b, d = light / float(c['L']), dark / float(c['Ld'])
    return {'L': c['L'], 'L_dark': c['Ld'], 'M': h, 'N': w, 'M_dark': h,
            'N_dark': w, 'sum': light, 'sum_dark': dark, 'texp': 1e6,
            'u_p': 100., 'avg_mean': float(np.ma.mean(b)),
            'avg_mean_dark': float(np.ma.mean(d)),
            'avg_var': float(np.ma.var(b)) + 9., 'avg_var_dark':
            float(np.ma.var(d)) + 3., 'var_mean': 5.5, 'var_mean_dark': 2.5,
            'avg_var_cav': .5, 'avg_var_cav_dark': .1, 'avg_var_rav': .4,
            'avg_var_rav_dark': .1}


SPATIAL = {'shape': (9, 11), 'L': 4, 'Ld': 4, 'bk': 'noise', 'dk': 'noise',
           'amp': 3, 'bhot': 0, 'dhot': 0, 'mask': None}
SAXES = {'shape': ((5, 5), (5, 8), (9, 11), (16, 7), (12, 12)),
         'L': (2, 3, 4, 16), 'Ld': (2, 3, 4, 50),
         'bk': ('ramp', 'noise', 'rows', 'shade'),
         'dk': ('ramp', 'noise', 'rows', 'shade'),
         'amp': (1, 3, 50), 'bhot': (0, 7, 900), 'dhot': (0, 7, 900),
         'mask': (None, 'none', 'nomask', 'green', 'red')}


def test(cv, sp, id_=None, **kw):
    r = Results1288({'temporal': curve(cv), 'spatial': spatial(sp)}, **kw)
    if id_ is not None:
        r.id = id_
    return r


def run(case, ctx):
    cv, sp, names, id_, kw = case
    m = spatial(sp)['sum']
    if isinstance(m, np.ma.MaskedArray) and \
            np.ma.getmaskarray(m)[2:-2, 2:-2].all():
        return
    t = test(cv, sp, id_, **kw)
    if not (t.u_p_sat > t.u_p_min):
        return ctx.outcome('no range')
    keep = ({k: v.copy() for k, v in t.temporal.items()},
            {k: (v.copy() if hasattr(v, 'copy') else v)
             for k, v in t.spatial.items()})
    out = []
    for name in names:
        with figs.stub():
            f, p = draw(name, t)
        fresh = test(cv, sp, id_, **kw)
        n = compare(ctx, name, f, fresh, id_)
        ctx.eq('nothing else in ' + name, len(figs.lines(f)), n)
        look(ctx, name, f, p, [fresh])
        out.append([ln[1:] for ln in figs.lines(f)])
    ctx.eq('data unmodified', (dict(t.temporal), dict(t.spatial)), keep)
    ctx.state(case)
    ctx.outcome(out)


def spaces(tier):
    deep = tier == 'thorough'
    ax = {k: CAXES[k] for k in ('K', 'qe', 'n', 'sat', 'noise', 'texp',
                                'bend')}
    tmp = []
    for c in deviations(CURVE, ax, 3 if deep else 2):
        if c['n'] >= 3 and 3 <= c['sat'] < c['n']:
            tmp.append((c, SPATIAL, TEMPORAL, 1, {}))
    for f in (3, 5, 7):
        for id_ in (0, 12):
            tmp.append((CURVE, SPATIAL, TEMPORAL, id_,
                        {'index_u_ysat': f, 'pixel_area': 5.}))
    spa = [(CURVE, c, IMAGE, 2, {})
           for c in deviations(SPATIAL, SAXES, 3 if deep else 2)]
    prof = [(CURVE, dict(SPATIAL, shape=s, mask=m, bk=b, dk=d),
             ['HorizontalProfile', 'VerticalProfile'], 3, {})
            for s in ((2, 3), (3, 2), (3, 3), (4, 5), (7, 4), (9, 9))
            for m in (None, 'none', 'nomask', 'row', 'col', 'red',
                      'green')
            for b in ('ramp', 'noise') for d in ('noise', 'shade')]
    big = [(CURVE, dict(SPATIAL, shape=s, bhot=sum(s) % 50, mask=m), IMAGE,
            4, {})
           for n in (63, 64, 65, 100, 101, 127, 129, 255, 256, 257, 513,
                     1025) + ((511, 1500, 2049, 4097) if deep else ())
           for s in ((n, 7), (7, n))
           for m in ((None, 'green') if n % 2 else (None,))]
    big += [(CURVE, dict(SPATIAL, shape=s, bk='shade', L=16), IMAGE, 5, {})
            for s in ((70, 130), (130, 70))]
    return [Space('image sizes', big, run, chunk=1,
                  bound='sizes around the powers of two in each direction'),
            Space('temporal plots', tmp, run, chunk=4,
                  bound='up to %d deviations, %d axes'
                  % (3 if deep else 2, len(ax))),
            Space('image plots', spa, run, chunk=4,
                  bound='up to %d deviations, %d axes'
                  % (3 if deep else 2, len(SAXES))),
            Space('profiles', prof, run_profile,
                  bound='6 shapes, 7 masks')]


def run_profile(case, ctx):
    """images too small for the other plots"""
    cv, sp, names, id_, kw = case
    if sp['shape'][0] < 4 and sp['mask'] == 'red' or \
            min(sp['shape']) < 3 and sp['mask'] in ('row', 'col'):
        return
    t = test(cv, sp, id_, **kw)
    for name in names:
        with figs.stub():
            f, p = draw(name, t)
        compare(ctx, name, f, test(cv, sp, id_, **kw), id_)
        look(ctx, name, f, p, [t])
    ctx.state(case)
    ctx.outcome([ln[1:] for ln in figs.lines(f)])
