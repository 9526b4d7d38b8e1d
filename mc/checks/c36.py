"""C36: work in one thread does not disturb work in another"""
import itertools
import os
import shutil
from collections import OrderedDict
import numpy as np
from PIL import Image
from matplotlib.backends.backend_agg import FigureCanvasAgg
from matplotlib.figure import Figure
from ..core import Space, differs, pristine, short
from .. import figs, threads
from .c09 import curve, DEFAULT
from .c19 import documented, spatial
from .c21 import pattern, qe_of
from emva1288.camera import routines as cr
from emva1288.camera.bad_images import bad_pixel
from emva1288.camera.camera import Camera
from emva1288.camera.dataset_generator import DatasetGenerator
from emva1288.camera.points_generator import PointsGenerator
from emva1288.process import Data1288, Emva1288, LoadImageData, \
    ParseEmvaDescriptorFile, Results1288, plotting
from emva1288.process import routines
from emva1288.report import report as rep

ID = 'C36'
TECH = ('stateless exploration of the real code under a controlled scheduler '
        '(one thread runs at a time, switches at source lines or bytecode '
        'instructions of the package), every schedule up to a bound on the '
        'number of preemptions')
RULE = ('every pair of operations on objects of their own, in two (three) '
        'threads, under every schedule with a bounded number of preemptions '
        'at the lines (instructions) of the package; each thread must answer '
        'what it answers alone')
ASSUME = ['a switch happens between two lines (instructions) of the package, '
          'at the first visits of a place as stated per space; libraries '
          'called by the package are not interrupted',
          'figures are recorded instead of rendered',
          'the defect positions of the defect injection come from the '
          'random state numpy shares, so only their number and value is '
          'compared']


# ------------------------------------------------------------ operations
def images(k, shape=(4, 5), L=3, dtype=np.uint8):
    y, x = np.mgrid[:shape[0], :shape[1]]
    return [((7 * y * (k + 1) + 3 * x * x + 11 * n * (k + 2) + 5 * k * y * x)
             % 201).astype(dtype) for n in range(L)]


def masked(k, shape=(6, 7)):
    y, x = np.mgrid[:shape[0], :shape[1]]
    return np.ma.array(images(k, shape)[0].astype(np.int64),
                       mask=(y + x + k) % 2 == 0)


def data(k):
    c = dict(DEFAULT)
    c.update([{}, {'K': 2., 'n': 7, 'sat': 4}, {'K': .25, 'n': 9,
                                               'sat': 7}][k])
    s = spatial(k == 1)
    if k == 2:
        s['sum'] = s['sum'] * 3
    return {'temporal': curve(c), 'spatial': s}


def new_results(k, tmp=None):
    r = Results1288(data(k), pixel_area=[None, 20., 4.][k])
    r.name, r.id = 'test %d' % k, 5 * k + 1
    return r


def descriptor(k, tmp):
    """a little measurement on disk"""
    d = os.path.join(os.path.dirname(tmp), 'm%d' % k)
    fn = os.path.join(d, 'set.txt')
    if os.path.exists(fn):
        return fn
    os.makedirs(os.path.join(d, 'images'))
    shape = [(7, 8), (7, 8), (6, 9)][k]
    lines = ['v %d' % k, 'n 8 %d %d' % (shape[1], shape[0])]
    n = 0
    for t in (10., 20., 30., 40., 50.):
        for p in (0., 10. * t):
            for L in (2, 3) if t == 30. else (2,):
                lines.append('b %s %s' % (t * (k + 1), p) if p
                             else 'd %s' % (t * (k + 1)))
                for img in images(k, shape, L):
                    v = img // 9 + 5 + (p > 0) * t * (3 - k)
                    v += (np.arange(v.size).reshape(v.shape) * 7 + n * 5) \
                        % (3 + (p > 0) * int(t) // 5)
                    name = 'i%d.png' % n
                    n += 1
                    Image.fromarray(v.astype(np.uint8)).save(
                        os.path.join(d, 'images', name))
                    lines.append('i images\\' + name)
    with open(fn, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return fn


def parse(k, tmp):
    fn = descriptor(k, tmp)
    p = ParseEmvaDescriptorFile(fn)
    return [p.version, p.format, p.images]


def load(k, tmp):
    fn = descriptor(k, tmp)
    p = ParseEmvaDescriptorFile(fn)

    def go():
        return LoadImageData(p.images).data
    return go


def to_data(k, tmp):
    shape = [(4, 5), (4, 5), (3, 6)][k]
    st = [routines.get_int_imgs(images(j, shape, 3)) for j in (k, k + 1)]
    pair = [routines.get_int_imgs(images(j, shape, 2)) for j in (k, k + 3)]
    t = [{'sum': p['sum'].sum(), 'pvar': p['pvar'].sum(),
          'dmean': p['dmean']} for p in pair]
    d = {'temporal': {e: {0.: t[0], e: t[1], 2 * e: t[0]}
                      for e in (1., 2., 3. + k)},
         'spatial': {2.: {0.: st[0], 5.: st[1]}},
         'height': shape[0], 'width': shape[1]}

    def go():
        return Data1288(d).data
    return go


def fits(k, tmp):
    x = np.arange(1., 8.) * (k + 1)
    y = x * (2 - k) + x ** 2 * .01 + k
    return lambda: [routines.LinearB(x, y), routines.LinearB0(x, y)]


def xml_of(k):
    return OrderedDict([('sec%d' % (k % 2), OrderedDict([
        ('A%d' % j, {'short': 's', 'symbol': 'y', 'value': 1.5 * j + k})
        for j in range(3)] + [('H', {'short': 'h', 'data': {
            'bins': np.arange(4.) * (k + 1), 'values': np.arange(4) + k}})]
    ))])


def xml(k, tmp):
    fn = os.path.join(tmp, 'x%d.xml' % k)

    def go():
        t = routines.dict_to_xml(xml_of(k))
        routines.dict_to_xml(xml_of(k), filename=fn)
        return [t, routines.xml_to_dict(fn), routines.xml_to_dict(t)]
    return go


def compare(k, tmp):
    a, b = (routines.dict_to_xml(xml_of(j)) for j in (k, 2))
    fn = os.path.join(tmp, 'c%d.txt' % k)

    def go():
        r = [routines.compare_xml(a, a), routines.compare_xml(a, b, fn)]
        with open(fn) as f:
            return r + [f.read()]
    return go


def names():
    return sorted(n for n in documented(Results1288))


def numbers(k, tmp):
    todo = [n for n in names() if not n.startswith('histogram')]

    def go():
        r = new_results(k)
        out = []
        for n in todo:
            v = getattr(r, n)
            out.append(v() if callable(v) else v)
        return out
    return go


def histograms(k, tmp):
    todo = [n for n in names() if n.startswith('histogram')]

    def go():
        r = new_results(k)
        return [getattr(r, n) for n in todo]
    return go


def sections(k, tmp):
    return lambda: new_results(k).results_by_section


def plot(name):
    def make(k, tmp):
        cls = [c for c in plotting.EVMA1288plots if c.__name__ == name][0]
        ts = [new_results(k), new_results((k + 1) % 3)]

        def go():
            f = Figure()
            FigureCanvasAgg(f)
            p = cls(f)
            for t in ts:
                p.plot(t)
            p.rearrange()
            return [figs.lines(f),
                    [[list(a.get_xlim()), list(a.get_ylim()), a.get_title(),
                      a.get_xlabel(), a.get_ylabel()] for a in f.axes]]
        return go
    return make


def report(k, tmp):
    """two operation points, written"""
    out = os.path.join(tmp, 'report%d' % k)
    d = data(k)

    def go():
        shutil.rmtree(out, ignore_errors=True)
        r = rep.Report1288(out, basic=rep.info_basic(vendor='v%d' % k),
                           setup=rep.info_setup(),
                           marketing=rep.info_marketing())
        for j in range(1 + k // 2):
            op = rep.info_op()
            op['summary_only'] = bool(j)
            op['camera_settings']['Gain'] = 'g%d%d' % (k, j)
            r.add(op, d)
        r.latex()
        got = {}
        for root, _d, fs in os.walk(out):
            if os.path.basename(root) in ('files', 'upload'):
                continue
            for f in fs:
                p = os.path.join(root, f)
                with open(p, 'rb') as o:
                    got[os.path.relpath(p, out)] = o.read()
        return got
    return go


def camera(k, over=()):
    h, w = [(3, 4), (3, 4), (2, 5)][k]
    return Camera(width=w, height=h, seed=11 + k,
                  qe=qe_of('three', h, w), bit_depth=[8, 12, 16][k],
                  K=[.5, 2., 9.][k], blackoffset=[1, 20, 300][k],
                  temperature=22 + 9 * k, dark_current_ref=300. * (k + 1),
                  dsnu=pattern('mixed', h, w, False),
                  prnu=pattern('mixed', h, w, True), **dict(over))


def grab(k, tmp):
    def go():
        c = camera(k)
        p = c.get_radiance_for(mean=c.img_max / (k + 2.))
        a = [c.grab(p), c.grab(0), c.grab(p, temperature=50, f_number=4)]
        c.exposure *= 2
        c.K = 3.
        c.blackoffset = 7
        return a + [c.grab(p), c.K, c.blackoffset, c.exposure,
                    c.get_photons(p), c.Ks, c.blackoffsets]
    return go


def helpers(k, tmp):
    w = np.array([500., 550., 600.]) + 50 * k
    a = np.arange(6.).reshape(2, 3) + k

    def go():
        h, n = [(3, 5), (3, 5), (2, 4)][k]
        f = cr.get_bayer_filter(*[int(w[j]) for j in (0, 1, 2, 1)],
                                width=n, height=h, w=w)
        q = cr.Qe(wavelength=w, width=n, height=h, filter=f)
        return [f, q.qe, q.w, cr.get_tile(a, h, n), cr.get_tile(a[0], 1, n),
                cr.get_photons(1e6 * (k + 1), a[:, :3], 25, w, 8),
                cr.get_radiance(1e6 * (k + 1), a[:, :3], 25, 4, w)]
    return go


def test_points(k, tmp):
    def go():
        c = camera(k)
        p = PointsGenerator(c, steps=3 + k,
                            exposure_fixed=1e6 * k or None).points
        return [{e: list(v) for e, v in p[m].items()}
                for m in ('temporal', 'spatial')] + [c.exposure]
    return go


def dataset(k, tmp):
    out = os.path.join(tmp, 'dataset%d' % k)

    def go():
        shutil.rmtree(out, ignore_errors=True)
        h, w = [(3, 4), (3, 4), (2, 5)][k]
        g = DatasetGenerator(
            width=w, height=h, seed=5 + k, steps=2, L=3, outdir=out,
            bit_depth=[8, 12, 16][k], exposure_fixed=1e6 * k or None,
            qe=qe_of('mono', h, w), K_steps=4, blackoffset_steps=4)
        with open(g.descriptor_path) as f:
            got = [f.read(), g.cam.K, g.cam.blackoffset]
        d = os.path.join(out, 'images')
        for n in sorted(os.listdir(d)):
            got += [n, np.array(Image.open(os.path.join(d, n)))]
        return got
    return go


def defects(k, tmp):
    def go():
        c = camera(k)
        before = np.array(c.DSNU)
        bad_pixel(c, 3 + k, .5)
        d = np.array(c.DSNU)
        return [int((d != before).sum()),
                sorted(float(v) for v in d[d != before])]
    return go


def pipeline(k, tmp):
    fn = descriptor(k, tmp)
    return lambda: Emva1288(fn).xml()


def simple(fn):
    def make(k, tmp):
        return lambda: fn(k, tmp)
    return make


OPS = OrderedDict([
    ('parse', simple(parse)),
    ('load', load),
    ('reduce', simple(lambda k, tmp: routines.get_int_imgs(
        images(k, [(4, 5), (4, 5), (3, 6)][k], 3)))),
    ('data', to_data),
    ('fits', fits),
    ('spectrum', simple(lambda k, tmp: [
        routines.FFT1288(images(k, (6, 7))[0], rotate=r, n=k + 1)
        for r in (False, True)])),
    ('masked spectrum', simple(lambda k, tmp: [
        routines.FFT1288(masked(k), rotate=r) for r in (False, True)])),
    ('histogram', simple(lambda k, tmp: [
        routines.Histogram1288(images(k)[0], [256, 9, 30][k]),
        routines.Histogram1288(masked(k), 12)])),
    ('filter', simple(lambda k, tmp: routines.high_pass_filter(
        images(k, (7, 8))[0], [3, 3, 5][k]))),
    ('masked filter', simple(lambda k, tmp: routines.high_pass_filter(
        masked(k, (8, 8)), [3, 3, 5][k]))),
    ('xml', xml),
    ('compare', compare),
    ('numbers', numbers),
    ('histograms', histograms),
    ('sections', sections),
    ('grab', grab),
    ('helpers', helpers),
    ('points', test_points),
    ('dataset', dataset),
    ('defects', defects),
    ('pipeline', pipeline),
])
for _c in plotting.EVMA1288plots:
    OPS['plot ' + _c.__name__] = plot(_c.__name__)
OPS['report'] = report

#: where the long ones may be interrupted
ONLY = {'report': ('report.py',),
        'dataset': ('dataset_generator.py', 'points_generator.py',
                    'camera.py')}
CHEAP = [n for n in OPS if not n.startswith('plot') and
         n not in ('report', 'pipeline', 'dataset', 'sections')]


def answer(f):
    try:
        return True, f()
    except Exception as e:
        return False, '%s: %s' % (type(e).__name__, e)


def alone(o, k, tmp):
    with figs.stub():
        return answer(OPS[o](k, tmp))


class Pair(object):
    """operations prepared, and what each answers alone"""

    def __init__(self, ctx, ops, visits, opcodes=False):
        self.ctx = ctx
        self.opcodes = opcodes
        self.ops = ops
        # what they write has names of its own; the same operation works in
        # a directory of its own
        self.dirs = [os.path.join(ctx.tmp, str(ops[:i].count(o)))
                     for i, o in enumerate(ops)]
        for d in self.dirs:
            os.makedirs(d, exist_ok=True)
        self.fns = [OPS[o](k, d) for (o, k), d in zip(ops, self.dirs)]
        self.alone = []
        for f in self.fns:
            self.answer(f)              # anything loaded only once
        for (o, k), d in zip(ops, self.dirs):
            a = pristine(alone, o, k, d)
            ctx.true('an operation alone', a[0], a[1])
            self.alone.append(a)
        self.only = [ONLY.get(o) for o, _k in ops]
        self.points = [threads.points(lambda: self.answer(f), visits, only,
                                      opcodes)
                       for f, only in zip(self.fns, self.only)]

    def answer(self, f):
        return answer(f)

    def check(self, stops):
        self.ctx.step()
        try:
            got, moved = threads.run(self.fns, stops, self.only,
                                     self.opcodes)
        except threads.Deadlock as e:
            self.ctx.fail('threads wait for each other', '%s %s'
                          % (e, where(stops)))
        for (o, k), g, w in zip(self.ops, got, self.alone):
            why = differs(list(g), list(w))
            if why:
                self.ctx.fail('answer of %s in its own thread' % o,
                              'beside %s, interrupted at %s: %s' % (
                                  [x[0] for x in self.ops], where(stops),
                                  short(why)))
        self.ctx.outcome(self.ops, moved)
        self.ctx.state(self.ops, where(stops))


def where(stops):
    return [None if s is None else
            [os.path.basename(s[0][0])] + list(s[0][1:]) + [s[1]]
            for s in stops]


def run_one(case, ctx):
    """one preemption of the first thread"""
    ops, visits, part, parts, opcodes = case
    with figs.stub():
        p = Pair(ctx, [tuple(o) for o in ops], visits, opcodes)
        ctx.true('the operation runs lines of the package', p.points[0])
        for s in p.points[0][part::parts]:
            p.check([s] + [None] * (len(ops) - 1))


def run_two(case, ctx):
    """every thread interrupted once"""
    ops, visits, part, parts, opcodes = case
    with figs.stub():
        p = Pair(ctx, [tuple(o) for o in ops], visits, opcodes)
        allp = list(itertools.product(*p.points))
        for s in allp[part::parts]:
            p.check(list(s))


#: pairs of different operations that could share something
RELATED = [('numbers', 'histograms'), ('numbers', 'plot PlotSNR'),
           ('sections', 'numbers'), ('load', 'parse'), ('load', 'reduce'),
           ('grab', 'points'), ('grab', 'defects'), ('grab', 'helpers'),
           ('dataset', 'grab'), ('pipeline', 'load'), ('xml', 'compare'),
           ('filter', 'masked filter'), ('spectrum', 'masked spectrum'),
           ('report', 'numbers'), ('report', 'plot PlotPTC'),
           ('dataset', 'defects')]
PARTS = {'report': 24, 'dataset': 6, 'sections': 4, 'pipeline': 8,
         'numbers': 4, 'load': 2}


def spaces(tier):
    deep = tier != 'quick'

    def split(ops, visits, n=1, opcodes=False):
        n = n * max(PARTS.get(o, 1) for o, _k in ops)
        return [(ops, visits, i, n, opcodes) for i in range(n)]
    same = []
    for o in OPS:
        same += split([(o, 0), (o, 1)], 1 + (o in CHEAP))
        if o in CHEAP or deep:
            same += split([(o, 2), (o, 0)], 1)
            same += split([(o, 1), (o, 1)], 1)
    rel = []
    todo = [x for a, b in RELATED for x in ((a, b), (b, a))
            if deep or 'report' not in x]
    if deep:
        todo = [(a, b) for a in CHEAP for b in CHEAP if a != b] + \
            [x for x in todo if not (x[0] in CHEAP and x[1] in CHEAP)]
    for a, b in todo:
        rel += split([(a, 0), (b, 1)], 1)
    short_ = ['reduce', 'fits', 'spectrum', 'filter', 'masked spectrum',
              'masked filter', 'histogram', 'parse']
    two = []
    for o in short_ + (['data', 'helpers', 'grab', 'points', 'defects']
                       if deep else []):
        two += split([(o, 0), (o, 1)], 1, 8 if deep else 4)
    out = [
        Space('same operation twice', same, run_one, chunk=1,
              pristine=True,
              bound='%d operations, one preemption at each line' % len(OPS)),
        Space('different operations', rel, run_one, chunk=1,
              pristine=True,
              bound='%d ordered pairs, one preemption at each line'
              % len(todo)),
        Space('both interrupted', two, run_two, chunk=1,
              pristine=True,
              bound='short operations, one preemption of each thread'),
    ]
    if deep:
        three = []
        for o in ('reduce', 'fits', 'spectrum', 'filter'):
            three += split([(o, 0), (o, 1), (o, 2)], 1, 32)
        ins = []
        for o in CHEAP:
            ins += split([(o, 0), (o, 1)], 1, 16, True)
        out += [Space('three threads', three, run_two, chunk=1,
                      pristine=True,
                      bound='one preemption of each of three threads'),
                Space('instructions', ins, run_one, chunk=1,
                      pristine=True,
                      bound='one preemption before each bytecode '
                      'instruction')]
    return out
