"""C29: the one-call pipeline"""
import contextlib
import io
import itertools
import os
import xml.etree.ElementTree as ET
from fractions import Fraction as F
import numpy as np
from ..core import Space, digest
from ..util import deviations
from .. import pipeline, ref
from . import c14
from emva1288.process import (Emva1288, ParseEmvaDescriptorFile,
                              LoadImageData, Data1288, Results1288)
from emva1288.process.routines import load_image

ID = 'C29'
TECH = ('exhaustive enumeration of bounded measurements written to disk '
        '(configurations, every single pixel of every image set to an '
        'extreme value, every order of the series), processed by the real '
        'one-call class and step by step, against an exact computation from '
        'the raw pixels')
RULE = ('every measurement configuration within a number of deviations; '
        'every image file x pixel x extreme value; every rotation and swap '
        'of the series; every quantity compared')
ASSUME = ['measurements on a decision threshold (equal variances, signal '
          'exactly at 5, 70 or 95 % of saturation) are left out',
          'roots of variances within 1e-7 of zero are not compared',
          'relative tolerance 1e-6']


def number(text):
    text = (text or '').strip()
    return None if text == 'None' else float(text)


def from_xml(src):
    """independent reader -> {name: value}, {name: {array}}"""
    root = ET.fromstring(src)
    vals, data = {}, {}
    for sec in root:
        for q in sec:
            for part in q:
                if part.tag == 'value':
                    vals[q.tag] = number(part.text)
                elif part.tag == 'data':
                    data[q.tag] = {a.tag: [number(v) for v in
                                           (a.text or '').split()]
                                   for a in part}
    return vals, data


def stepwise(fn, area=None):
    info = ParseEmvaDescriptorFile(fn)
    imgs = LoadImageData(info.images)
    dat = Data1288(imgs.data)
    return Results1288(dat.data, pixel_area=area)


def process(ctx, m, ext='png', order=None, hist=True, full=True,
            fmt=None):
    want, t = pipeline.reference(m)
    fn = m.write(os.path.join(ctx.tmp, 'd'), ext, order)
    if fmt:
        declare(fn, fmt)
    e = Emva1288(fn)
    x = e.xml()
    vals, data = from_xml(x)
    pipeline.check_values(ctx, 'XML', vals, want)
    r = stepwise(fn)
    res = r.results
    ctx.eq('the same quantities', sorted(list(vals) + list(data)),
           sorted(res))
    for k, v in vals.items():
        ctx.eq('step by step ' + k, v, None if res[k]['value'] is None
               else float(res[k]['value']))
    for k, v in data.items():
        d = res[k]['data']
        ctx.eq('step by step ' + k, v, {a: [float(i) for i in d[a]]
                                        for a in d})
    if full:
        for k in ('texp', 'u_p', 'u_y', 's2_y', 'u_ydark', 's2_ydark'):
            ctx.close('data ' + k, np.asarray(r.temporal[k], float), t[k],
                      1e-9, 1e-9)
        out = os.path.join(ctx.tmp, 'r.xml')
        e.xml(out)
        ctx.eq('XML file', from_xml(open(out).read()), (vals, data))
        ctx.eq('again', from_xml(e.xml()), (vals, data))
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            e.results()
        text = buf.getvalue()
        for k, i in res.items():
            if 'value' in i:
                ctx.true('printed ' + k, any(
                    ln.startswith(str(i.get('short'))) and
                    ln.rstrip().endswith(str(i['value']))
                    for ln in text.split('\n')), k, i['value'])
        area = stepwise(fn, 25.).results
        wa, _ = pipeline.reference(m, 25.)
        pipeline.check_values(ctx, 'with pixel area', {
            k: v.get('value') for k, v in area.items()}, wa)
    if hist:
        histograms(ctx, m, data)
    ctx.outcome(sorted((k, round(float(v), 6)) for k, v in vals.items()
                       if v is not None))
    return vals


def histograms(ctx, m, data):
    b, d = m.stacks()
    sb, sd = sum(b), sum(d)
    L, Ld = len(b), len(d)
    for name in c14.NAMES:
        h = {k: v for k, v in data[name].items()}
        acc = 'acc' in name
        if 'DSNU' in name:
            vals = [F(int(v), Ld) for v in sd.ravel()]
            unit, center = F(1, Ld), True
        else:
            lc = np.lcm(L, Ld)
            y = sb.astype(object) * int(lc // L) - \
                sd.astype(object) * int(lc // Ld)
            vals, n = c14.box(np.ma.array(y))
            vals = [v / int(lc) for v in vals]
            unit, center = F(1, int(lc) * n), False
        c14.judge(ctx, name, h, vals, unit, acc, center)


DEF = {'bits': 8, 'shape': (6, 7), 'n': 6, 'mode': 'exposure', 'K': None,
       'dark': 8., 'dark_slope': 0., 'L': 3, 'Ld': 3, 'prnu': 'both',
       'dsnu': 'pixels', 'texp': 1e6, 'sat': 1.08, 'dn': 1., 'bend': None,
       'seed': 0, 'ext': 'png'}
AX = {'bits': (8, 9, 10, 12, 14, 16), 'shape': ((6, 7), (5, 5), (9, 6),
                                                (6, 12)),
      'n': (4, 6, 9, 20), 'mode': ('exposure', 'photon'),
      'K': (None, .5, .05), 'dark': (0., 8., 40.4),
      'dark_slope': (0., 1e3, 2e4), 'L': (3, 4, 8), 'Ld': (3, 4, 5),
      'prnu': ('none', 'rows', 'cols', 'both', 'pixels', 'hot'),
      'dsnu': ('none', 'rows', 'cols', 'pixels', 'hot'),
      'texp': (1e6, 123.4, 5e7), 'sat': (1.08, .8, 1.3), 'dn': (1., .1, 3.),
      'bend': (None, (2, .9), (4, 1.1), (0, .5)), 'seed': (0, 1, 2),
      'ext': ('png', 'tif')}


def make(c):
    c = dict(c)
    c.pop('ext', None)
    return pipeline.simulate(**c)


def run_config(case, ctx):
    m = make(case)
    try:
        process(ctx, m, case['ext'])
    except pipeline.Skip as e:
        ctx.outcome('skipped', str(e))
        return
    ctx.state(case)


def declare(fn, fmt):
    """another image format line: the images decide"""
    with open(fn) as f:
        lines = [fmt if ln.startswith('n ') else ln for ln in f]
    with open(fn, 'w') as f:
        f.writelines(lines)


def run_pixel(case, ctx):
    c, k, i, pos, val = case
    m = make(c)
    series = m.temporal + m.spatial
    img = series[k][2][i]
    img[pos // img.shape[1], pos % img.shape[1]] = val
    try:
        process(ctx, m, c['ext'], hist=k >= len(m.temporal), full=False)
    except pipeline.Skip as e:
        ctx.outcome('skipped', str(e))
        return
    ctx.state(c['bits'], k, i, pos, val)


def run_format(case, ctx):
    c, fmt = case
    process(ctx, make(c), fmt=fmt and fmt + '\n' or '\n')
    ctx.state(c, fmt)


def run_order(case, ctx):
    c, order = case
    m = make(c)
    base = process(ctx, m, 'png', None, False, False)
    os.rename(os.path.join(ctx.tmp, 'd'), os.path.join(ctx.tmp, 'd0'))
    got = process(ctx, m, 'png', order, False, False)
    for k in base:
        if base[k] is None or base[k] != base[k]:
            ctx.eq(k, got[k], base[k])
        else:
            ctx.close('any order ' + k, got[k], base[k], 1e-9, 1e-12)
    ctx.state(order)


PLACES = ['d', 'a/b', 'with space', 'caf\u00e9', 'dot.dir', 'a-b/c_d/e']
FORMS = ['absolute', 'relative', 'here', './', '../', 'symlink', 'dots']


def run_path(case, ctx):
    """the same measurement, named in every way a caller can name it"""
    c, place, form, name = case
    m = make(c)
    root = os.path.join(ctx.tmp, 'root')
    os.mkdir(root)
    fn = m.write(os.path.join(root, place))
    if name != 'EMVA1288descriptor.txt':
        new = os.path.join(os.path.dirname(fn), name)
        os.rename(fn, new)
        fn = new
    d = os.path.dirname(fn)
    rel = os.path.relpath(fn, root)
    cwd, arg = root, fn
    if form == 'relative':
        arg = rel
    elif form == 'here':
        cwd, arg = d, name
    elif form == './':
        arg = './' + rel
    elif form == '../':
        cwd = os.path.join(root, 'other')
        os.mkdir(cwd)
        arg = '../' + rel
    elif form == 'symlink':
        link = os.path.join(root, 'link')
        os.symlink(d, link)
        arg = os.path.join('link', name)
    elif form == 'dots':
        arg = os.path.join(place, '..', os.path.basename(place), name)
    keep = os.getcwd()
    os.chdir(cwd)
    try:
        want, _ = pipeline.reference(m)
        e = Emva1288(arg)
        os.chdir(ctx.tmp)
        vals, _ = from_xml(e.xml())
        pipeline.check_values(ctx, 'XML', vals, want)
        ctx.eq('files', sorted(os.listdir(root)), sorted(
            {place.split('/')[0]} | ({'other'} if form == '../' else set()) |
            ({'link'} if form == 'symlink' else set())))
    finally:
        os.chdir(keep)
    ctx.state(case)


def run_live(case, ctx):
    """several one-call objects alive at the same time"""
    ms = [make(dict(DEF, **d)) for d in case]
    objs, want = [], []
    for i, m in enumerate(ms):
        fn = m.write(os.path.join(ctx.tmp, 'm%d' % i))
        objs.append(Emva1288(fn))
        want.append(pipeline.reference(m)[0])
    for i in list(range(len(ms))) + list(range(len(ms)))[::-1]:
        ctx.step()
        vals, _ = from_xml(objs[i].xml())
        pipeline.check_values(ctx, 'object %d' % i, vals, want[i])
    ctx.state(case)


def run_repeated(case, ctx):
    """measurements that are repeated in the same files"""
    ms = [make(dict(DEF, **d)) for d in case]
    for i, m in enumerate(ms):
        fn = m.write(os.path.join(ctx.tmp, 'm'))
        ctx.step()
        vals, _ = from_xml(Emva1288(fn).xml())
        pipeline.check_values(ctx, 'measurement %d' % i, vals,
                              pipeline.reference(m)[0])
    ctx.state(case)


def spaces(tier):
    deep = tier == 'thorough'
    cfg = list(deviations(DEF, AX, 2))
    if deep:
        ax = {k: AX[k] for k in ('bits', 'n', 'mode', 'dark_slope', 'L',
                                 'prnu', 'bend')}
        cfg += [c for c in deviations(DEF, ax, 3)
                if sum(c[k] != DEF[k] for k in ax) == 3]
    many = [dict(DEF, n=n, mode=md, L=L, Ld=Ld, bits=16, sat=1.03)
            for md in ('exposure', 'photon')
            for n, L, Ld in ((60, 3, 3), (130, 3, 3), (4, 120, 60),
                             (5, 30, 257)) + (((700, 3, 3), (4, 1100, 3))
                                              if deep else ())]
    sizes = [dict(DEF, shape=s, bits=12 if sum(s) % 2 else 8, dsnu='hot',
                  seed=sum(s)) for n in
             (63, 64, 65, 127, 128, 129, 255, 256, 257) +
             ((511, 513, 1023, 1025) if deep else ())
             for s in ((n, 7), (7, n))] + [
                 dict(DEF, shape=(70, 130), bits=16, L=4, Ld=5)]
    px = []
    for c in (dict(DEF, shape=(5, 5), n=5),
              dict(DEF, shape=(5, 5), n=4, mode='photon', bits=12)):
        m = make(c)
        top = 2 ** c['bits'] - 1
        for k, i in m.files():
            for pos in range(25) if deep else range(0, 25, 3):
                for v in (0, top) + ((top // 2,) if deep else ()):
                    px.append((c, k, i, pos, v))
    formats = [(dict(DEF, **c), f) for c in (
        {}, {'mode': 'photon', 'bits': 12}) for f in (
            '', 'n 8 10 10', 'n 16 1 1', 'n 1 7 6', 'n 8 6 7',
            'n 12 4096 4096')]
    orders = []
    for c in (dict(DEF, n=4), dict(DEF, n=4, mode='photon')):
        m = make(c)
        N = len(m.temporal) + len(m.spatial)
        for r in range(N):
            o = list(range(N))
            orders.append((c, o[r:] + o[:r]))
            orders.append((c, (o[r:] + o[:r])[::-1]))
        for a, b in itertools.combinations(range(N), 2):
            o = list(range(N))
            o[a], o[b] = o[b], o[a]
            orders.append((c, o))
        if deep:
            for a, b, d in itertools.permutations(range(N), 3):
                o = list(range(N))
                o[a], o[b], o[d] = o[b], o[d], o[a]
                orders.append((c, o))
    dd = [{}, {'mode': 'photon'}, {'bits': 12}, {'n': 9}, {'dark': 40.4}]
    live = list(itertools.permutations(dd, 2)) + \
        (list(itertools.permutations(dd, 3)) if deep else [])
    dd = dd + [{'seed': 1}]
    again = list(itertools.permutations(dd, 2)) + \
        (list(itertools.permutations(dd, 3)) if deep else [])
    paths = [(dict(DEF, n=4, mode=md), p, f, n) for md in
             (('exposure', 'photon') if deep else ('exposure',))
             for p in PLACES for f in FORMS
             for n in ('EMVA1288descriptor.txt', 'My data.v1')]
    return [Space('descriptor paths', paths, run_path,
                  bound='%d directories x %d ways to name it x 2 names'
                  % (len(PLACES), len(FORMS))),
            Space('configurations', cfg, run_config,
                  bound='all pairs of deviations over 17 axes'),
            Space('long measurements', many, run_config, chunk=1,
                  bound='up to %d exposures, %d images' % (
                      (700, 1100) if deep else (130, 257))),
            Space('image sizes', sizes, run_config, chunk=1,
                  bound='sizes around the powers of two in each direction'),
            Space('single pixels', px, run_pixel,
                  bound='every image file, %s pixel, %d values'
                  % ('every' if deep else 'every third', 3 if deep else 2)),
            Space('format lines', formats, run_format, chunk=1,
                  bound='absent and disagreeing image format lines'),
            Space('series order', orders, run_order,
                  bound='all rotations, reversals, transpositions%s'
                  % (', 3-cycles' if deep else '')),
            Space('repeated measurements', again, run_repeated,
                  bound='all orders of up to %d measurements written to the '
                  'same files' % (3 if deep else 2)),
            Space('live objects', live, run_live,
                  bound='all orders of up to %d measurements'
                  % (3 if deep else 2))]
