"""C37: a failed or interrupted operation says so and can be repeated"""
import os
import shutil
from collections import OrderedDict
from ..core import Space, differs, pristine, short
from .. import faults, figs, threads
from . import c36
from .c21 import pattern
from .c36 import camera, data, names, new_results, OPS, PARTS, ONLY
from emva1288.process import Data1288, Results1288
from emva1288.report import report as rep

ID = 'C37'
TECH = ('exhaustive fault injection into the real code: an interruption at '
        'every source line of the package, every single file operation '
        'failing, every write stopped at every chosen size')
RULE = ('every operation x every point of interruption (first visits of each '
        'line of the package), every file operation it performs failing in '
        'several ways, writes that stop at every size class; the fault '
        'reaches the caller or the answer is complete, and the operation '
        'repeated answers what it answers in a process without faults')
ASSUME = ['interruptions happen between lines of the package; libraries it '
          'calls are not interrupted inside', 'file operations are seen '
          'through the audit events of Python (open, mkdir, rename) and '
          'below the scratch directory and the package; operations of C '
          'libraries that bypass them are reached by the stopped writes only',
          'figures are recorded instead of rendered']


def tree(out):
    got = {}
    for root, _d, fs in os.walk(out):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, 'rb') as o:
                got[os.path.relpath(p, out)] = o.read()
    return got


def report(k, tmp):
    """as a user repeats it: into the same directory"""
    out = os.path.join(tmp, 'again%d' % k)
    logo = os.path.join(tmp, 'logo%d.pdf' % k)
    if not os.path.exists(logo):
        with open(logo, 'w') as f:
            f.write('logo %d' % k)
    d = data(k)

    def go():
        r = rep.Report1288(out, basic=rep.info_basic(vendor='v%d' % k),
                           marketing=rep.info_marketing(logo=logo))
        for j in range(1 + k):
            r.add(dict(rep.info_op(), summary_only=bool(j)), d)
        r.latex()
        return tree(out)
    return go


ALL = OrderedDict(OPS)
ALL['report'] = report
FILES = ['parse', 'load', 'xml', 'compare', 'dataset', 'pipeline', 'report']


def alone(o, k, tmp):
    with figs.stub():
        fn = ALL[o](k, tmp)
        return list(faults.answer(fn))


class Op(object):
    """an operation, and what it and its sister answer without faults"""

    def __init__(self, ctx, o):
        self.ctx, self.o = ctx, o
        self.fns, self.want = [], []
        for k in (0, 1):
            d = os.path.join(ctx.tmp, 'o')
            os.makedirs(d, exist_ok=True)
            ref = pristine(alone, o, k, d)
            ctx.true('the operation without faults', ref[0] == 'ok', ref[1])
            self.want.append(ref)
            self.fns.append(ALL[o](k, d))
        self.dir = d
        for f in self.fns:
            faults.answer(f)            # anything loaded only once
        self.clean()
        self.process = faults.process_state()

    def clean(self):
        """nothing left of earlier runs but the inputs"""
        for n in os.listdir(self.dir):
            p = os.path.join(self.dir, n)
            if n.startswith(('report', 'again', 'dataset')):
                shutil.rmtree(p)
            elif n.startswith(('x', 'c')):
                os.remove(p)

    def again(self, where):
        """first with other arguments, then the same"""
        now = faults.process_state()
        if now != self.process:
            why = [x for x in zip(now, self.process) if x[0] != x[1]][:1]
            self.ctx.fail('%s leaves the process changed' % self.o,
                          '%s: %s' % (where, short(why)))
        for k in (1, 0):
            self.ctx.step()
            got = list(faults.answer(self.fns[k]))
            why = differs(got, self.want[k])
            if why:
                self.ctx.fail('%s repeated' % self.o, '%s: %s %s' % (
                    where, short(why), short(got) if got[0] != 'ok' else ''))

    def judge(self, got, where):
        """after a fault: told, or complete all the same"""
        if got[0] == 'ok':
            why = differs(list(got), self.want[0])
            if why:
                self.ctx.fail('%s hides the fault' % self.o, '%s: %s' % (
                    where, short(why)))
        self.ctx.outcome(self.o, got[0])


def run_interrupt(case, ctx):
    o, visits, part, parts = case
    with figs.stub():
        op = Op(ctx, o)
        pts = threads.points(op.fns[0], visits, ONLY.get(o))
        ctx.true('the operation runs lines of the package', pts)
        for p in pts[part::parts]:
            ctx.step()
            op.clean()
            where = c36.where([p])
            got = faults.interrupted(op.fns[0], p, ONLY.get(o))
            if got[0] == 'error':
                ctx.fail('%s interrupted' % o, '%s: another error: %s'
                         % (where, got[1]))
            op.judge(got, where)
            op.again(where)
            ctx.state(o, where)


def run_files(case, ctx):
    o, code, part, parts = case
    with figs.stub():
        op = Op(ctx, o)
        roots = (ctx.tmp, faults.PACKAGE)
        n = faults.file_operations(op.fns[0], roots)
        ctx.true('the operation touches files', n > 0)
        for k in range(n)[part::parts]:
            ctx.step()
            op.clean()
            happened, got = faults.failing(op.fns[0], roots, k,
                                           faults.CODES[code])
            ctx.true('the fault happened', happened, k)
            where = 'file operation %d: %s' % (k, code)
            op.judge(got, where)
            op.again(where)
            ctx.state(o, code, k)


def run_writes(case, ctx):
    o, part, parts = case
    with figs.stub():
        op = Op(ctx, o)
        op.fns[0]()
        sizes = sorted({os.path.getsize(os.path.join(r, f))
                        for r, _d, fs in os.walk(ctx.tmp) for f in fs})
        limits = sorted({x for s in sizes for x in (0, s // 2, s - 1)
                         if 0 <= x < sizes[-1]})
        for x in limits[part::parts]:
            ctx.step()
            op.clean()
            got = faults.limited(op.fns[0], x)
            where = 'files limited to %d bytes' % x
            op.judge(got, where)
            op.again(where)
            ctx.state(o, x)


# ------------------------------------------------- the same object again
def value(r, n):
    v = getattr(r, n)
    return v() if callable(v) else v


def all_values(k):
    r = new_results(k)
    return [value(r, n) for n in names()]


def obj_results(ctx, part, parts):
    want = pristine(all_values, 0)
    for n in names():
        pts = threads.points(lambda: value(new_results(0), n))
        for p in pts[part::parts]:
            ctx.step()
            r = new_results(0)
            faults.interrupted(lambda: value(r, n), p)
            where = '%s interrupted at %s' % (n, c36.where([p]))
            for m, w in zip(names(), want):
                why = differs(value(r, m), w)
                if why:
                    ctx.fail('results after an interruption',
                             '%s: %s: %s' % (where, m, short(why)))
            ctx.state(where)


def two_points(tmp, k):
    """-> report with k points, and what it writes"""
    out = os.path.join(tmp, 'two')
    r = rep.Report1288(out, basic=rep.info_basic(vendor='v'))
    for j in range(k):
        add(r, j)
    return r, out


def add(r, j):
    op = rep.info_op()
    op['camera_settings']['Gain'] = 'g%d' % j
    r.add(op, data(j))


def written(tmp, k):
    with figs.stub():
        r, out = two_points(tmp, k)
        r.latex()
        return {f: v for f, v in tree(out).items()}


def texts(d):
    return {f: v for f, v in d.items() if os.sep not in f}


def obj_report(ctx, part, parts):
    want = []
    for k in (1, 2):
        t = os.path.join(ctx.tmp, str(k))
        os.makedirs(t)
        want.append(pristine(written, t, k))
    n = [0]
    with figs.stub():
        def fresh():
            n[0] += 1
            t = os.path.join(ctx.tmp, 'r%d' % n[0])
            os.makedirs(t)
            return two_points(t, 1)
        r, out = fresh()

        def both():
            add(r, 1)
            r.latex()
        pts = threads.points(both, 1, ('report.py',))
        for p in pts[part::parts]:
            ctx.step()
            r, out = fresh()
            got = faults.interrupted(both, p, ('report.py',))
            where = c36.where([p])
            ctx.true('the interruption reaches the caller',
                     got[0] == 'interrupted', where, got)
            r.latex()
            has = len(r.ops)
            ctx.true('points of the report', has in (1, 2), has, where)
            ctx.eq('report after an interruption at %s' % where,
                   texts(tree(out)), texts(want[has - 1]))
            if has == 1:
                add(r, 1)
                r.latex()
            ctx.eq('report after the point was added at last, %s' % where,
                   tree(out), want[1])
            ctx.state(where)


def settings(c):
    return [c.K, c.blackoffset, c.exposure, dict(c.environment), c.DSNU,
            c.img_max, c.Ks, c.blackoffsets, c.qe.qe, c.qe.w,
            c.get_radiance_for(mean=c.img_max / 3.),
            c.get_photons(c.get_radiance_for(mean=9.), f_number=3)]


def obj_camera(ctx, part, parts):
    c = camera(0)
    rad = c.get_radiance_for(mean=80.)

    def use():
        c.grab(rad, temperature=45, f_number=2)
        c.get_radiance_for(mean=20., exposure=3e6)
        c.get_photons(rad, exposure=5e6, f_number=11)

    def sets():
        c.K = 9.
        c.blackoffset = 11
        c.exposure = 7e6
        c.DSNU = pattern('mixed', 3, 4, False) * 2
    pts = threads.points(use)
    for p in pts[part::parts]:
        ctx.step()
        c = camera(0)
        keep = settings(c)
        got = faults.interrupted(use, p)
        ctx.true('the interruption reaches the caller',
                 got[0] == 'interrupted', got)
        ctx.eq('camera after an interruption at %s' % c36.where([p]),
               settings(c), keep)
        ctx.state('use', c36.where([p]))
    c = camera(0)
    old = settings(c)[:5]
    pts = threads.points(sets)
    new = settings(c)[:5]
    for p in pts[part::parts]:
        ctx.step()
        c = camera(0)
        faults.interrupted(sets, p)
        got = settings(c)
        for g, a, b in zip(got, old, new):
            ctx.true('setting either old or new, %s' % c36.where([p]),
                     differs(g, a) is None or differs(g, b) is None, g, a, b)
        sets()
        ctx.eq('set again', settings(c)[:5], new)
        ctx.state('set', c36.where([p]))


def obj_data(ctx, part, parts):
    """the caller's arrays survive"""
    pts = threads.points(lambda: OPS['data'](0, None)())
    keep = OPS['data'](0, None)()
    for p in pts[part::parts]:
        ctx.step()
        f = OPS['data'](0, None)
        faults.interrupted(f, p)
        ctx.eq('data after an interruption at %s' % c36.where([p]), f(),
               keep)
        ctx.state('data', c36.where([p]))


OBJ = OrderedDict([('results', obj_results), ('report', obj_report),
                   ('camera', obj_camera), ('data', obj_data)])


def run_object(case, ctx):
    kind, part, parts = case
    OBJ[kind](ctx, part, parts)


def spaces(tier):
    deep = tier != 'quick'
    brk = []
    for o in ALL:
        n = PARTS.get(o, 1) * (2 if deep else 1)
        brk += [(o, 3 if deep else 1, i, n) for i in range(n)]
    fil = [(o, code, i, 4 if o in ('report', 'dataset') else 1)
           for o in FILES for code in faults.CODES
           for i in range(4 if o in ('report', 'dataset') else 1)]
    wr = [(o, i, 2) for o in ('xml', 'compare', 'dataset', 'report')
          for i in range(2)]
    obj = [(k, i, 8 if k == 'results' else 4) for k in OBJ
           for i in range(8 if k == 'results' else 4)]
    return [Space('stopped writes', wr, run_writes, chunk=1, pristine=True,
                  bound='files limited to nothing, half, all but a byte of '
                  'every size'),
            Space('failing files', fil, run_files, chunk=1, pristine=True,
                  bound='every single file operation of %d operations x %d '
                  'errors' % (len(FILES), len(faults.CODES))),
            Space('same object', obj, run_object, chunk=1, pristine=True,
                  bound='results, report, camera, data: an interruption at '
                  'each line'),
            Space('interruptions', brk, run_interrupt, chunk=1,
                  pristine=True,
                  bound='%d operations, the first %d visits of each line'
                  % (len(ALL), 3 if deep else 1))]
