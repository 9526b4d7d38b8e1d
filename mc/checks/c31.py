"""C31: the report"""
import builtins
import contextlib
import io
import itertools
import json
import os
from collections import OrderedDict
import numpy as np
from ..core import Space
from ..util import deviations
from .. import figs, tex
from .c09 import curve, DEFAULT, AXES
from .c19 import spatial
from emva1288.process import Results1288
from emva1288.report import report as rep

ID = 'C31'
RULE = ('every report with a bounded number of deviations of its information '
        'fields; every sequence of operation points over an alphabet up to a '
        'length; every data set within a number of deviations; the TeX is '
        'read back and compared field by field')
ASSUME = ['TeX is not run (not installed): the files are read by a small '
          'reader', 'figures are recorded instead of rendered, except in the '
          'last space', 'text fields hold valid TeX']
TEXTS = {'none': None, 'text': 'some text', 'zero': 0, 'num': 12.5,
         'nan': float('nan'), 'npnan': np.float64('nan'), 'int': 7,
         'uni': u'Ünï µ 10° <\'a\'> 1 > 0 "b" \\& C'}


def touch(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(text.encode())
    return path


def read(*path):
    with open(os.path.join(*path), 'rb') as f:
        return f.read()


def check_files(ctx, out, r):
    sty = tex.strip_comments(read(out, 'emvadatasheet.sty').decode('utf-8'))
    for g in r.graphics + tex.graphics(sty):
        ctx.step()
        ctx.true('referenced file exists: ' + g,
                 os.path.isfile(os.path.join(out, g)))
        ctx.true('referenced from the output directory', not os.path.isabs(g)
                 and os.path.realpath(os.path.join(out, g)).startswith(
                     os.path.realpath(out) + os.sep), g)
    return sty


def latex(report, out):
    report.latex()
    return tex.Report(read(out, 'report.tex'))


def resolve(field, code, tmp):
    """-> value"""
    if field in ('logo', 'missingplot', 'qe_plot', 'cover_page', 'cover'):
        if code in (None, 'none'):
            return None
        return touch(os.path.join(tmp, *code.split('/')), field)
    return TEXTS[code] if code in TEXTS else code


def check_info(ctx, r, sty, out, basic, setup, marketing, cover):
    got = {}
    for k, v in r.info:
        got.setdefault(k, []).append(v)
    shown = set(tex.KIND.get(basic.get('sensor_type'), ()))
    for k, label, unit in tex.BASIC:
        ctx.step()
        if k in sum(tex.KIND.values(), ()) and k not in shown:
            continue
        ctx.eq('basic ' + k, got.get(label), [tex.info_text(basic.get(k),
                                                           unit)])
    for k, v in setup.items():
        ctx.step()
        ctx.eq('setup ' + k, got.get(k), [tex.info_text(v)])
    ctx.true('vendor and model in the header',
             r'\textbf{%s \, %s}' % (tex.info_text(basic.get('vendor')),
                                     tex.info_text(basic.get('model')))
             in sty)

    def shows(label, path, field, default):
        want = ('%s' % field).encode() if field else \
            read(rep._CURRDIR, 'files', default)
        ctx.step()
        ctx.eq(label, read(out, path), want)
    logo = [g for g in tex.graphics(sty) if 'EMVA1288Logo' not in g]
    ctx.eq('one logo', len(logo), 1)
    shows('logo', logo[0], marketing.get('logo') and 'logo',
          'missinglogo.pdf')
    ctx.eq('one plot on the cover', len(r.cover_graphics), 1)
    f = 'qe_plot' if basic.get('qe_plot') else \
        'missingplot' if marketing.get('missingplot') else None
    shows('quantum efficiency plot', r.cover_graphics[0], f,
          'missingplot.pdf')
    w = marketing.get('watermark')
    ctx.eq('watermark', 'text={%s}' % w in r.preamble
           if w else 'draftwatermark' in r.preamble, bool(w))
    c = cover or marketing.get('cover_page')
    ctx.eq('cover page', r.inputs, [c] if c else [])


@contextlib.contextmanager
def platform_encoding(enc):
    """text files opened without an encoding take this one"""
    real = open

    def opener(file, mode='r', buffering=-1, encoding=None, *a, **k):
        if encoding is None and 'b' not in mode:
            encoding = enc
        return real(file, mode, buffering, encoding, *a, **k)
    builtins.open = io.open = opener
    try:
        yield
    finally:
        builtins.open = io.open = real


def run_encoding(case, ctx):
    c, form, enc = case
    with platform_encoding(enc):
        run_info((c, form), ctx)
    ctx.state(case)


def run_info(case, ctx):
    c, form = case
    out = os.path.join(ctx.tmp, 'out')
    b, s, m = {}, OrderedDict(), {}
    cover = None
    for k, v in c.items():
        if v == 'absent':
            continue
        v = resolve(k.split('.')[1], v, ctx.tmp)
        if k.startswith('b.'):
            b[k[2:]] = v
        elif k.startswith('s.'):
            s[k[2:]] = v
        elif k == 'm.cover':
            cover = v
        else:
            m[k[2:]] = v
    if form == 'info':
        args = dict(setup=rep.info_setup(**s), basic=rep.info_basic(**b),
                    marketing=rep.info_marketing(**m))
        want = dict.fromkeys(tex.SETUP)
        want.update(s)
    else:
        args = dict(setup=s or None, basic=b or None, marketing=m or None)
        want = dict(s) if s else dict.fromkeys(tex.SETUP)
    keep = {k: (type(v), dict(v)) for k, v in args.items() if v is not None}
    if cover:
        args['cover_page'] = cover
    ctx.step(2)
    report = rep.Report1288(out, **args)
    r = latex(report, out)
    sty = check_files(ctx, out, r)
    if cover and m.get('cover_page'):
        m = dict(m, cover_page=None)
    check_info(ctx, r, sty, out, b, want, m, cover)
    ctx.eq('no operation points', (r.index, r.ops), ([], []))
    for k, (t, v) in keep.items():
        ctx.eq('caller information unmodified', dict(args[k]), v)
    ctx.state(case)
    ctx.outcome(r.text)


# ------------------------------------------------------- operation points
SETTINGS = {'none': None, 'empty': (), 'two': (('Gain', 'x1'),
                                               ('Black level', 12.5),
                                               ('Mode <a>', '1 > \'0\'')),
            'miss': (('Offset', None), ('Temp', float('nan')), ('Zero', 0)),
            'wl': (('Wavelength', '525 nm'),),
            'wln': (('Wavelength', None), ('Wavelength 2', '7'))}
OP = {'name': 'text', 'cs': 'empty', 'tp': 'empty', 'summary': None,
      'area': None, 'data': 0, 'given': False, 'id': None}
VARIANTS = [dict(DEFAULT, bend=(2, 1.1)),
            dict(DEFAULT, K=1., noise=9., bend=(2, .8), n=7, sat=5),
            dict(DEFAULT, qe=.9, n=9, sat=7, dark=30., bend=(4, 1.2),
                 texp='slow'),
            dict(DEFAULT, texp='one', K=.2, qe=.8, bend=(1, .7), p0=1200.),
            dict(DEFAULT, noise=1., K=.3, p0=700., bend=(3, 1.3))]


def parts(M, N, row, col, pix):
    """-> total, column mean and row mean variance with these parts"""
    t, D = row + col + pix, float(M * N - M - N)
    cav, rav = np.linalg.solve(
        [[(M * N - M) / D, N / D], [M / D, (M * N - N) / D]],
        [col + N * t / D, row + M * t / D])
    return t, cav, rav


def images(k):
    """spatial data whose parts differ; k = 3: dark variances undefined"""
    s = spatial(k == 3)
    M, N, L, Ld = s['M'], s['N'], 4 + k, 6 + k
    b = parts(M, N, 30. + 20 * k, 55. + 26 * k, 90. + 60 * k * k)
    s.update(L=L, L_dark=Ld, sum=s['sum'] // 4 * L, sum_dark=s['sum_dark'] //
             6 * Ld, avg_mean=60. - 7 * k, avg_var=b[0] + s['var_mean'] / L,
             avg_var_cav=b[1], avg_var_rav=b[2])
    if k != 3:
        d = parts(M, N, 1. + k * k, 2. + 3 * k, 4. + 7 * k)
        s.update(avg_var_dark=d[0] + s['var_mean_dark'] / Ld,
                 avg_var_cav_dark=d[1], avg_var_rav_dark=d[2])
    return s


def dataset(k):
    """every shown quantity differs between the data sets"""
    t = curve(VARIANTS[k])
    for a, b in (('u_y', 'u_ydark'), ('s2_y', 's2_ydark')):
        x = k * (1 + .5 * (a == 's2_y')) * (t['texp'] - t['texp'][0]) * 1e-8
        t[a] = t[a] + x
        t[b] = t[b] + x
    return {'temporal': t, 'spatial': images(k)}


NAMES = {'text': 'first', 'none': None, 'empty': '', 'two': 'second name',
         'uni': u'Ö 1 < \'b\' \\& "C"'}


def add(report, c, data=None, op=None):
    """-> reference description of the point"""
    data = data if data is not None else dataset(c['data'])
    if op is None:
        op = {'name': NAMES[c['name']]}
        for k, f in (('cs', 'camera_settings'), ('tp', 'test_parameters')):
            if SETTINGS[c[k]] is not None:
                op[f] = OrderedDict(SETTINGS[c[k]])
        if c['summary'] != 'absent':
            op['summary_only'] = c['summary']
        if c['id']:
            op['id'] = c['id']
    area = c['area']
    given = Results1288(data, pixel_area=area) if c['given'] else None
    if given is not None:
        report.add(op, data, given)
    else:
        report.add(op, data)
        area = None
    r = Results1288(data, pixel_area=area).results
    return {'name': op['name'], 'cs': op.get('camera_settings') or {},
            'tp': op.get('test_parameters') or {},
            'summary': op.get('summary_only'),
            'values': {k: v.get('value') for k, v in r.items()},
            't': data['temporal']}


def check_op(ctx, out, n, got, index, want, plots=True):
    name = want['name'] or 'OP%d' % n
    label = 'OP%d' % n
    ctx.eq('name', (got['name'], got['name2'], index[0]), (name,) * 3)
    ctx.eq('label', (got['label'], index[1]), (label,) * 2)
    ctx.eq('wavelength', got['wavelength'],
           tex.info_text(want['tp'].get('Wavelength')))
    for h in (got['header'], index[2]):
        ctx.eq('camera settings', h[0],
               [(k, tex.info_text(v)) for k, v in want['cs'].items()])
        ctx.eq('test parameters', h[1],
               [(k, tex.info_text(v)) for k, v in want['tp'].items()])
    rows = dict(got['rows'])
    ctx.eq('one row per quantity', len(rows), len(got['rows']))
    for k, d in tex.DECIMALS:
        ctx.step()
        key = tex.key(k)
        ctx.true('row of ' + k, key in rows, key)
        ctx.true('value of ' + k, tex.shows(rows[key], want['values'][k], d),
                 rows[key], want['values'][k])
    wanted = tex.SUMMARY if want['summary'] else tex.PLOTS
    ctx.eq('plots of the operation point', sorted(got['graphics']),
           sorted('%s/Plot%s.pdf' % (label, p) for p in wanted))
    for p in tex.PLOTS:
        ctx.true('plot file ' + p, os.path.isfile(
            os.path.join(out, label, 'Plot%s.pdf' % p)))
    if plots:
        t = want['t']
        ln = json.loads(read(out, label, 'PlotPTC.pdf').decode())
        ctx.close('its own plot', (ln[0][3], ln[0][4]),
                  (list(map(float, t['u_y'] - t['u_ydark'])),
                   list(map(float, t['s2_y'] - t['s2_ydark']))), 1e-6)
        for p in tex.PLOTS:
            ln = json.loads(read(out, label, 'Plot%s.pdf' % p).decode())
            ctx.true('lines of ' + p, len(ln) > 0)
            ctx.true('identified by the number of the point',
                     all(x[1].startswith('%d:' % n) for x in ln), n,
                     [x[1] for x in ln])


def check_ops(ctx, out, r, wants, plots=True):
    ctx.eq('number of operation points', (len(r.ops), len(r.index)),
           (len(wants),) * 2)
    for n, w in enumerate(wants, 1):
        check_op(ctx, out, n, r.ops[n - 1], r.index[n - 1], w, plots)


def run_ops(case, ctx):
    with figs.stub():
        out = os.path.join(ctx.tmp, 'out')
        report = rep.Report1288(out)
        wants = []
        for c in case:
            ctx.step()
            wants.append(add(report, c))
        r = latex(report, out)
    check_files(ctx, out, r)
    check_ops(ctx, out, r, wants)
    ctx.state(case)
    ctx.outcome(r.text)


def run_data(case, ctx):
    c, area, neg, forced, summary = case
    data = {'temporal': curve(c),
            'spatial': spatial(True) if neg else images(1)}
    with figs.stub():
        out = os.path.join(ctx.tmp, 'out')
        report = rep.Report1288(out)
        res = Results1288(data, pixel_area=area, index_u_ysat=forced)
        vals = {k: v.get('value') for k, v in Results1288(
            data, pixel_area=area, index_u_ysat=forced).results.items()}
        ctx.step()
        report.add({'name': 'x', 'summary_only': summary}, data, res)
        r = latex(report, out)
    check_files(ctx, out, r)
    check_ops(ctx, out, r, [{'name': 'x', 'cs': {}, 'tp': {},
                             'summary': summary, 'values': vals,
                             't': data['temporal']}])
    ctx.state(case)
    ctx.outcome(vals)


def run_real(case, ctx):
    out = os.path.join(ctx.tmp, 'out')
    report = rep.Report1288(out)
    ctx.step()
    wants = [add(report, c) for c in case]
    r = latex(report, out)
    check_files(ctx, out, r)
    check_ops(ctx, out, r, wants, False)
    for n in range(1, len(case) + 1):
        for p in tex.PLOTS:
            raw = read(out, 'OP%d' % n, 'Plot%s.pdf' % p)
            ctx.true('a PDF: ' + p, raw.startswith(b'%PDF') and
                     b'%%EOF' in raw[-16:])
    ctx.state(case)
    ctx.outcome(len(case))


def spaces(tier):
    deep = tier == 'thorough'
    d, ax = {}, {}
    for i, (k, _, _) in enumerate(tex.BASIC):
        d['b.' + k] = 'absent'
        ax['b.' + k] = ('absent', 'none', 'text', 'zero', 'num', 'nan',
                        'uni')
    ax['b.sensor_type'] = ('absent', 'none', 'CCD', 'CMOS', 'nan')
    for k in tex.SETUP + ['Another key']:
        d['s.' + k] = 'absent'
        ax['s.' + k] = ('absent', 'none', 'text', 'zero', 'npnan', 'uni')
    d.update({'b.qe_plot': 'absent', 'm.logo': 'absent',
              'm.missingplot': 'absent', 'm.watermark': 'absent',
              'm.cover_page': 'absent', 'm.cover': 'absent'})
    ax.update({'b.qe_plot': ('absent', 'none', 'a/img.pdf', 'b/q.png'),
               'm.logo': ('absent', 'none', 'c/img.pdf', 'l.pdf'),
               'm.missingplot': ('absent', 'none', 'e/img.pdf', 'm.pdf'),
               'm.watermark': ('absent', 'none', 'text'),
               'm.cover_page': ('absent', 'none', 'cover.tex'),
               'm.cover': ('absent', 'none', 'cover2.tex')})
    info = []
    if deep:
        some = list(deviations(d, ax, 2))
    else:
        some = list(deviations(d, ax, 1))
        keys = ['b.sensor_type', 'b.readout_type', 'b.shutter_type',
                'b.transfer_type', 'b.overlap_capabilities', 'b.qe_plot',
                'm.logo', 'm.missingplot', 'm.watermark', 'm.cover_page']
        some += list(deviations(d, {k: [v for v in ax[k] if v != 'none' or
                                        k == 'b.sensor_type']
                                    for k in keys}, 2))
    # everything given
    full = {k: ax[k][2] for k in ax}
    some += [full, {k: ax[k][min(3, len(ax[k]) - 1)] for k in ax},
             {k: ax[k][-1] for k in ax}]
    some += list(deviations(full, {k: ('none', 'absent') + ax[k][2:3]
                                   for k in ax}, 2 if deep else 1))
    for c in some:
        for form in ('info', 'plain'):
            info.append((c, form))
    uni = [{k: 'uni'} for k in ax if 'uni' in ax[k]] + [full]
    enc = [(dict(d, **c), form, e) for c in uni for form in ('info', 'plain')
           for e in ('cp1252', 'ascii', 'utf-16')]
    opax = {'name': tuple(NAMES), 'cs': tuple(SETTINGS),
            'tp': tuple(SETTINGS), 'summary': (None, True, False, 'absent'),
            'area': (None, 25.), 'data': tuple(range(len(VARIANTS))),
            'given': (False, True), 'id': (None, 'OP7')}
    opax = {k: tuple(x for x in v if x != 'none' or k == 'name')
            if k in ('cs', 'tp') else v for k, v in opax.items()}
    one = list(deviations(OP, opax, 2 if deep else 1))
    opax['cs'] = opax['cs'] + ('none',)
    opax['tp'] = opax['tp'] + ('none',)
    one += [dict(OP, cs='none'), dict(OP, tp='none'),
            dict(OP, cs='none', tp='none', summary='absent')]
    alpha = [OP, dict(OP, name='none', summary=True, data=1, cs='two'),
             dict(OP, name='two', data=2, tp='wl', given=True, area=25.),
             dict(OP, name='empty', data=3, summary=False, cs='miss',
                  tp='wln')]
    if deep:
        alpha += [dict(OP, data=4, tp='miss', given=True),
                  dict(OP, id='OP1', data=1, summary=True)]
    many = [list(x) for n in (2, 3) for x in itertools.product(
        alpha, repeat=n) if n == 2 or deep or len(set(map(str, x))) == 3]
    many.append([dict(alpha[i % 4], name='text' if i % 3 else 'none')
                 for i in range(12)])
    cfg = []
    cax = {k: AXES[k] for k in ('K', 'qe', 'n', 'sat', 'noise', 'texp',
                                'bend')}
    for c in deviations(DEFAULT, cax, 2 if deep else 1):
        if c['n'] < 3 or c['sat'] < 1 or c['sat'] >= c['n']:
            continue
        for area, neg, s in ((None, False, False), (25., True, True)):
            cfg.append((c, area, neg, None, s))
    cfg += [(DEFAULT, 1., False, f, False) for f in (3, 5, 7)]
    real = [[OP]] + ([[alpha[1], alpha[2]]] if deep else [])
    return [Space('information', info, run_info,
                  bound='up to %d deviations over %d fields'
                  % (2 if deep else 1, len(ax))),
            Space('platform encoding', enc, run_encoding,
                  bound='each field with text outside ASCII, 3 encodings'),
            Space('operation points', [[c] for c in one] + many, run_ops,
                  chunk=4, bound='sequences of up to 3 points over %d'
                  % len(alpha)),
            Space('data', cfg, run_data, chunk=4,
                  bound='up to %d deviations, 7 axes' % (2 if deep else 1)),
            Space('rendered', real, run_real, chunk=1, bound='%d reports'
                  % len(real))]
