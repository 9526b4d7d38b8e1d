"""C32: reports are independent of each other and of the caller"""
import copy
import itertools
import os
from collections import OrderedDict
import numpy as np
from ..core import Space, digest, pristine
from .. import figs, tex
from .c31 import add, check_files, check_info, check_ops, dataset, latex, OP, read, \
    touch
from emva1288.process import Results1288
from emva1288.report import report as rep

ID = 'C32'
RULE = ('every history of bounded length over two reports: adding shared or '
        'own operation points, data or shared results, changing the shared '
        'dictionaries, generating, and starting again in the same directory; '
        'a reference list of operation points per report')
ASSUME = ['figures are recorded instead of rendered', 'dictionaries are '
          'reused or changed between the calls, not during one']


class World(object):
    def __init__(self, ctx, info, forms=None):
        self.ctx = ctx
        self.forms = forms or {}
        self.data = [dataset(0), dataset(1)]
        self.results = Results1288(self.data[1], pixel_area=25.)
        self.op = {'name': None, 'summary_only': False,
                   'camera_settings': OrderedDict([('Gain', 'x1')]),
                   'test_parameters': OrderedDict([('Wavelength', '1 nm')])}
        self.info = rep.info_basic(vendor='v1'), rep.info_setup(), \
            rep.info_marketing()
        self.shared_info = info
        self.n = 0
        self.rep, self.want, self.vendor = {}, {}, {}
        self.log, self.first = {}, {}
        self.before = digest(self.data)
        for k in 'AB':
            self.new(k)

    def out(self, k):
        return os.path.join(self.ctx.tmp, PLACE.get(self.forms.get(k), k))

    def given(self, k):
        """the output directory as the caller names it"""
        form, out = self.forms.get(k), self.out(k)
        if form in ('relative', 'deep'):
            return os.path.relpath(out)
        if form == './':
            return './' + os.path.relpath(out) + '/'
        if form == 'link':
            os.makedirs(out, exist_ok=True)
            link = os.path.join(self.ctx.tmp, 'link')
            if not os.path.exists(link):
                os.symlink(out, link)
            return os.path.relpath(link)
        return out

    def new(self, k):
        b, s, m = self.info
        if not self.shared_info:
            b, s, m = None, None, None
        keep = copy.deepcopy((b, s, m))
        self.rep[k] = rep.Report1288(self.given(k), basic=b, setup=s,
                                     marketing=m)
        self.ctx.eq('information unmodified', (b, s, m), keep)
        self.want[k] = []
        self.log[k], self.first[k] = [], keep
        self.vendor[k] = b and b['vendor']

    def do(self, step):
        ctx = self.ctx
        ctx.step()
        k, what = step[0], step[1:]
        if k == '/':
            os.makedirs(os.path.join(ctx.tmp, what), exist_ok=True)
            os.chdir(os.path.join(ctx.tmp, what))
            return
        if k == 'M':
            self.n += 1
            self.op['name'] = 'name %d' % self.n
            self.op['summary_only'] = not self.op['summary_only']
            self.op['camera_settings']['Gain'] = 'x%d' % (self.n + 1)
            self.op['test_parameters']['P%d' % self.n] = self.n
            self.info[0]['vendor'] = 'v%d' % (self.n + 1)
            return
        if k == 'D':
            # the caller measures again into the same arrays
            for d in self.data:
                for part in d.values():
                    for a in part.values():
                        if isinstance(a, np.ndarray):
                            a[...] = a + a // 4 if a.dtype.kind in 'iu' \
                                else a * 1.25
            return
        if what == 'n':
            self.new(k)
        elif what == '!':
            self.check(k)
        elif what in ('s0', 's1'):
            keep = copy.deepcopy(self.op)
            d = self.data[int(what[1])]
            self.log[k].append((keep, int(what[1])))
            w = add(self.rep[k], OP, d, self.op)
            ctx.eq('operation point unmodified', self.op, keep)
            self.want[k].append(copy.deepcopy(w))
        elif what == 'r':
            keep = copy.deepcopy(self.op)
            self.log[k].append((keep, 'results'))
            self.rep[k].add(self.op, None, self.results)
            ctx.eq('operation point unmodified', self.op, keep)
            r = Results1288(self.data[1], pixel_area=25.).results
            self.want[k].append(copy.deepcopy({
                'name': self.op['name'], 'cs': self.op['camera_settings'],
                'tp': self.op['test_parameters'],
                'summary': self.op['summary_only'],
                't': self.data[1]['temporal'],
                'values': {i: v.get('value') for i, v in r.items()}}))
        else:
            c = dict(OP, name='two', cs='two', data=0)
            self.log[k].append((c, None))
            self.want[k].append(add(self.rep[k], c, self.data[0]))

    def compare(self, k):
        """with a report of the same points generated only once"""
        b, s, m = copy.deepcopy(self.first[k])
        out = os.path.join(self.ctx.tmp, 'fresh')
        f = rep.Report1288(out, basic=b, setup=s, marketing=m)
        for op, how in self.log[k]:
            if how is None:
                add(f, op, dataset(0))
            elif how == 'results':
                f.add(copy.deepcopy(op), None, Results1288(
                    dataset(1), pixel_area=25.))
            else:
                add(f, OP, dataset(how), copy.deepcopy(op))
        latex(f, out)
        for name in ('report.tex', 'emvadatasheet.sty'):
            self.ctx.step()
            self.ctx.eq('as generated only once: ' + name,
                        read(self.out(k), name), read(out, name))

    def check(self, k):
        ctx = self.ctx
        for _ in range(2):          # generating again gives the same
            r = latex(self.rep[k], self.out(k))
            check_files(ctx, self.out(k), r)
            check_ops(ctx, self.out(k), r, self.want[k])
        ctx.eq('number of points', len(self.rep[k].ops), len(self.want[k]))
        ctx.eq('vendor', dict(r.info)['Vendor'],
               tex.info_text(self.vendor[k]))
        ctx.outcome(r.text)


# where the directory of a form is; the others have the name of the report
PLACE = {'deep': 'x/y/z', 'link': 'target', 'space': u'a b/\u00e9.d',
         './': 'dot'}


def run_dirs(case, ctx):
    """the output directory named in different ways, the working directory
    changed between the calls"""
    forms, steps = case
    keep = os.getcwd()
    try:
        os.chdir(ctx.tmp)
        with figs.stub():
            w = World(ctx, True, dict(zip('AB', forms)))
            for s in steps:
                w.do(s)
            for k in 'AB':
                w.check(k)
        left = set(os.listdir(ctx.tmp))
        ctx.true('nothing outside of the output directories', left <= {
            PLACE.get(f, k).split('/')[0] for k, f in zip('AB', forms)} |
            {'link', 'w1', 'w2'}, left)
        for d in ('w1', 'w2'):
            if d in left:
                ctx.eq('working directory', os.listdir(
                    os.path.join(ctx.tmp, d)), [])
    finally:
        os.chdir(keep)
    ctx.state(case)


def run_attached(case, ctx):
    """reports one after the other, in two output directories, with attached
    files that share their names or change between the reports"""
    last = {}
    with figs.stub():
        for n, (k, logo, qe) in enumerate(case):
            ctx.step()
            out = os.path.join(ctx.tmp, 'out' + k)
            text, given = {}, {}
            for slot, src in (('logo', logo), ('qe_plot', qe)):
                given[slot] = src and os.path.join(ctx.tmp, *src.split('/'))
                if src:
                    text[slot] = ('content of %s, %d' % (src, n)).encode()
                    touch(given[slot], text[slot].decode())
            r = rep.Report1288(
                out, basic=rep.info_basic(qe_plot=given['qe_plot']),
                marketing=rep.info_marketing(logo=given['logo']))
            latex(r, out)
            last[k] = text
            for j, want in last.items():
                attached(ctx, os.path.join(ctx.tmp, 'out' + j), want)
    ctx.state(case)


def attached(ctx, out, want):
    r = tex.Report(read(out, 'report.tex'))
    sty = check_files(ctx, out, r)
    logo, = [g for g in tex.graphics(sty) if 'EMVA1288Logo' not in g]
    default = os.path.join(rep._CURRDIR, 'files')
    ctx.eq('logo', read(out, logo), want.get('logo') or
           read(default, 'missinglogo.pdf'))
    ctx.eq('quantum efficiency plot', read(out, r.cover_graphics[0]),
           want.get('qe_plot') or read(default, 'missingplot.pdf'))


def run_data(case, ctx):
    """the data given with earlier points change before the report is
    written: every point shows what it was added with"""
    with figs.stub():
        w = World(ctx, True)
        for s in case:
            w.do(s)
        for k in 'AB':
            w.check(k)
    ctx.state(case)


INFO = {'setup': (tex.SETUP, 'Light source', 'Lens'),
        'basic': ([k for k, _, _ in tex.BASIC] + ['qe_plot'], 'vendor',
                  'firmware'),
        'marketing': (['logo', 'watermark', 'missingplot', 'cover_page'],
                      'logo', 'motto'),
        'op': (['name', 'id', 'summary_only', 'results', 'camera_settings',
                'test_parameters'], None, None)}


def run_containers(case, ctx):
    """the information containers: defaults and arguments, whatever the
    earlier ones were given or changed to"""
    known = []
    for n, (name, what) in enumerate(case):
        ctx.step()
        keys, key, other = INFO[name]
        if what == 'change':
            for d, keep in known:
                for x in (d, keep):
                    x['changed %d' % n] = n
                    if 'vendor' in x:
                        x['vendor'] = 'changed'
                    for k in ('camera_settings', 'test_parameters'):
                        if k in x:
                            x[k]['Gain'] = 'changed'
                    x.pop('model', None)
                    x.pop('Standard version', None)
            continue
        kw = {'none': {}, 'key': {key: 'given %d' % n},
              'other': {other: 'given %d' % n}}[what]
        keep = dict(kw)
        d = getattr(rep, 'info_' + name)(**kw)
        want = dict(dict.fromkeys(keys), **keep)
        if name == 'op':
            for k in ('camera_settings', 'test_parameters'):
                ctx.eq('empty ' + k, len(d[k]), 0)
                want[k] = d[k]
            for k in ('results', 'summary_only', 'name', 'id'):
                ctx.true('nothing in ' + k, not d.get(k), d.get(k))
                want[k] = d.get(k)
            ctx.eq('keys', set(d), set(want))
        else:
            ctx.eq('container of ' + name, dict(d), want)
        if name == 'setup':
            ctx.eq('order', list(d), tex.SETUP + [k for k in kw
                                                  if k not in tex.SETUP])
        known.append((d, copy.deepcopy(d)))
        for d, keep in known:
            ctx.eq('containers of the caller', dict(d), dict(keep))
    # what a report without any information shows
    out = os.path.join(ctx.tmp, 'out')
    r = latex(rep.Report1288(out, setup=rep.info_setup(),
                             basic=rep.info_basic(),
                             marketing=rep.info_marketing()), out)
    sty = check_files(ctx, out, r)
    check_info(ctx, r, sty, out, {}, dict.fromkeys(tex.SETUP), {}, None)
    if not case:
        FIRST[0] = [k for k, _ in r.info]
    if FIRST[0] is None:
        FIRST[0] = pristine(shown, ctx.tmp)
    ctx.eq('information lines', [k for k, _ in r.info], FIRST[0])
    ctx.outcome([dict(d) for d, _ in known])
    ctx.state(case)


FIRST = [None]


def shown(tmp):
    out = os.path.join(tmp, 'first')
    return [k for k, _ in latex(rep.Report1288(
        out, setup=rep.info_setup(), basic=rep.info_basic(),
        marketing=rep.info_marketing()), out).info]


def run(case, ctx):
    info, steps = case
    with figs.stub():
        w = World(ctx, info)
        for s in steps:
            w.do(s)
        for k in 'AB':
            w.check(k)
        w.compare('A')
    ctx.eq('data unmodified', digest(w.data), w.before)
    ctx.eq('results unmodified', {k: v.get('value') for k, v in
                                  w.results.results.items()},
           {k: v.get('value') for k, v in Results1288(
               w.data[1], pixel_area=25.).results.items()})
    ctx.state(case)


def spaces(tier):
    deep = tier == 'thorough'
    al = ['As0', 'As1', 'Bs0', 'Ar', 'Br', 'Ad', 'M', 'A!', 'An']
    depth = 4 if deep else 3
    seqs = []
    for n in range(depth + 1):
        for s in itertools.product([a for a in al if n < 4 or
                                    a not in ('Ad', 'Br')], repeat=n):
            # a history that ends in a change or generation adds nothing
            if s and s[-1] in ('M', 'A!'):
                continue
            # changes before the first use are the same as later ones
            if s and s[0] in ('M', 'An') and n > 2:
                continue
            if any(a == b and a in ('M', 'A!', 'An')
                   for a, b in zip(s, s[1:])):
                continue
            seqs.append(s)
    forms = ['absolute', 'relative', './', 'deep', 'link', 'space']
    dirs = [((f, g), s) for f in forms for g in ('relative', 'absolute')
            for s in ((), ('/w1',), ('As0', '/w1', 'As1'), ('/w1', 'As0'),
                      ('As0', '/w1', 'A!', '/w2', 'Bs0', 'As1'),
                      ('As0', '/w1', 'Ar', '/', 'Bd'))]
    if deep:
        dirs += [((f, 'relative'), s) for f in forms
                 for s in itertools.product(('As0', 'Bd', '/w1', '/', 'A!'),
                                            repeat=3)]
    files = (None, 'a/img.pdf', 'b/img.pdf', 'a/x.pdf')
    one = list(itertools.product('AB', files, files))
    few = [(k, a, b) for k, a, b in one if (a, b) in (
        (None, None), ('a/img.pdf', 'b/img.pdf'), ('b/img.pdf', None),
        ('b/img.pdf', 'b/img.pdf'), (None, 'a/x.pdf'))]
    att = list(itertools.product(one[:16], one)) + [
        s for n in ((3, 4) if deep else (3,))
        for s in itertools.product(few, repeat=n) if s[0][0] == 'A']
    cases = [(True, s) for s in seqs]
    cases += [(False, s) for s in seqs if len(s) <= 1]
    al = ['As0', 'Bs1', 'Ar', 'D', 'A!']
    late = [s for n in range(2, 5 if deep else 4)
            for s in itertools.product(al, repeat=n)
            if 'D' in s and 'Ar' not in s[s.index('D'):]
            and s[0] not in ('D', 'A!')
            and not any(a == b and a in ('D', 'A!')
                        for a, b in zip(s, s[1:]))]
    calls = [(n, w) for n in INFO for w in ('none', 'key', 'other')
             if n != 'op' or w == 'none'] + [('setup', 'change')]
    con = [s for n in range(4 if deep else 3)
           for s in itertools.product(calls, repeat=n)]
    if not deep:
        con += [(a, ('setup', 'change'), b) for a in calls[:-1]
                for b in calls[:-1]]
    return [Space('data changed', late, run_data, chunk=4,
                  bound='histories of up to %d steps in which the arrays '
                  'change after a point was added' % (4 if deep else 3)),
            Space('containers', con, run_containers, chunk=8, pristine=True,
                  bound='up to %d calls of the 4 functions or changes of '
                  'their results' % (3 if deep else 2)),
            Space('output directories', dirs, run_dirs, chunk=4,
                  bound='6 ways to name the directory x %d histories with '
                  'changes of the working directory' % (131 if deep else 6)),
            Space('attached files', att, run_attached, chunk=8,
                  bound='histories of up to %d reports in 2 directories with '
                  '3 files of 2 names as logo and plot' % (4 if deep else 3)),
            Space('histories', cases, run, chunk=4,
                  bound='up to 3 steps of %d%s'
                  % (len(al), ', 4 of %d' % (len(al) - 2) if deep else ''))]
