"""C34: plotting several tests"""
import contextlib
import itertools
import os
import matplotlib.pyplot as plt
from ..core import Space, digest, pristine
from .. import figs, pipeline
from .c33 import draw, look, test, CURVE, SPATIAL, TEMPORAL, IMAGE
from emva1288.process import Emva1288, Plotting1288, Results1288, plotting
from emva1288.process import ParseEmvaDescriptorFile, LoadImageData, Data1288

ID = 'C34'
RULE = ('every list of tests up to a length over an alphabet with preset, '
        'missing and repeated ids, every selection of plots of an alphabet, '
        'every history of calls up to a length, with the windows closed or '
        'left open in between; against the plots of each test alone')
ASSUME = ['one test alone is plotted correctly (C33)', 'ids are integers',
          'the window system is replaced by a record of the figures at the '
          'moment they are shown']
TESTS = [(dict(CURVE), dict(SPATIAL)),
         (dict(CURVE, K=2., qe=.9), dict(SPATIAL, amp=50, bhot=900)),
         (dict(CURVE, n=50, sat=30, dark=100.), dict(SPATIAL, Ld=50)),
         (dict(CURVE, texp='one'), dict(SPATIAL, shape=(16, 7), amp=1))]
IDS = [None, 7, 0, 3]
SELECT = {'all': [], 'one': ['PTC'], 'two': ['LogarithmicHistogramPRNU',
                                             'SNR'],
          'twice': ['Sensitivity', 'Sensitivity'],
          'profiles': ['VerticalProfile', 'HorizontalProfile'],
          'hist': ['LogarithmicHistogramDSNU', 'AccumulatedLogHistogramDSNU',
                   'UyDark']}
ORDER = [c.__name__[4:] for c in plotting.EVMA1288plots]


@contextlib.contextmanager
def screen():
    """-> list of the figure lists shown"""
    shown = []
    keep = plt.show

    def show(*a, **k):
        shown.append([plt.figure(n) for n in plt.get_fignums()])
    plt.show = show
    plt.close('all')
    try:
        yield shown
    finally:
        plt.show = keep
        plt.close('all')


def by_axes(figures_lines):
    out = {}
    for lines in figures_lines:
        for ln in lines:
            out.setdefault(ln[0], []).append(ln[1:])
    return out


def limits(f):
    """limits and scales of the axes"""
    return [[list(map(float, a.get_xlim())), list(map(float, a.get_ylim())),
             a.get_xscale(), a.get_yscale(), a.get_title()] for a in f.axes]


def alone(name, keys):
    """this plot of these tests, drawn in a process that drew nothing else"""
    with figs.stub():
        ts = [test(*TESTS[k], id_=n) for n, k in enumerate(keys)]
        return limits(draw(name, *ts)[0])


ALONE = {}


def check_limits(ctx, figures, names, keys):
    for name, f in zip(names, figures):
        k = (name,) + tuple(keys)
        if k not in ALONE:
            ALONE[k] = pristine(alone, name, keys)
        ctx.step()
        ctx.close('axes of %s as without any history' % name, limits(f),
                  ALONE[k], 1e-9, 1e-12)


def check(ctx, figures, names, tests, fresh):
    """figures show exactly these plots of these tests"""
    ctx.eq('number of figures', len(figures), len(names))
    for name, f in zip(names, figures):
        ctx.step()
        single = []
        for t, g in zip(tests, fresh):
            g.id = t.id
            with figs.stub():
                single.append(figs.lines(draw(name, g)[0]))
        ctx.close('lines of ' + name, by_axes([figs.lines(f)]),
                  by_axes(single), 1e-9)
        if fresh:
            look(ctx, name, f, None, fresh)


def state(t):
    return digest((dict(t.temporal), dict(t.spatial)))


def run(case, ctx):
    lists, calls, keep_open = case[:3]
    given = case[3] if len(case) > 3 else IDS
    tests = {}
    for k in sorted(set(itertools.chain(*lists))):
        tests[k] = test(*TESTS[k], id_=given[k])
    before = {k: (state(t), getattr(t, 'id', None))
              for k, t in tests.items()}
    ids = {}
    with screen() as shown, figs.stub():
        plots = [Plotting1288(*[tests[k] for k in ls]) for ls in lists]
        for j, (i, sel) in enumerate(calls):
            names = SELECT[sel]
            plots[i].plot(*[getattr(plotting, 'Plot' + n) for n in names])
            ctx.eq('shown once', len(shown), j + 1)
            used = [tests[k] for k in lists[i]]
            figures = shown[-1]
            if keep_open:
                # figures of earlier calls may still be there
                figures = figures[:len(names or ORDER)]
            fresh = [test(*TESTS[k]) for k in lists[i]]
            check(ctx, figures, names or ORDER, used, fresh)
            if len(set(names)) == len(names):
                check_limits(ctx, figures, names or ORDER, lists[i])
            for k in lists[i]:
                v = tests[k].id
                ctx.true('own id', v == given[k] or given[k] is None, v,
                         given[k])
                ctx.eq('same id', ids.setdefault(k, v), v)
            if not keep_open:
                plt.close('all')
    ctx.eq('ids are distinct', len(set(ids.values())), len(ids))
    for k, t in tests.items():
        ctx.eq('data unmodified', state(t), before[k][0])
        ctx.close('results unmodified', {
            n: v.get('value') for n, v in t.results.items()},
            {n: v.get('value') for n, v in test(*TESTS[k]).results.items()},
            1e-12)
    ctx.state(case)
    ctx.outcome(sorted(lists), calls)


def run_call(case, ctx):
    """through the one-call class"""
    kw, sel = case
    m = pipeline.simulate(shape=(9, 11), **kw)
    fn = m.write(os.path.join(ctx.tmp, 'd'))
    names = SELECT[sel]
    info = ParseEmvaDescriptorFile(fn)
    r = Results1288(Data1288(LoadImageData(info.images).data).data)
    with screen() as shown, figs.stub():
        e = Emva1288(fn)
        for _ in range(2):
            e.plot(*[getattr(plotting, 'Plot' + n) for n in names])
            f = shown[-1]
            lines = figs.lines(f[0])
            r.id = int(lines[0][1].split(':')[0])
            check(ctx, f, names or ORDER, [r], [r])
            plt.close('all')
    ctx.state(case)
    ctx.outcome(lines)


def own_plots(log):
    """plots as a user writes them"""
    class Own(plotting.Emva1288Plot):
        def plot(self, t):
            log.append((type(self).__name__, id(self), 'plot', t))
            self.ax.plot([0., 1.], [t.K, t.R], gid='%d:own' % t.id)

        def rearrange(self):
            log.append((type(self).__name__, id(self), 'end', None))

    class First(Own):
        name = 'First one'
        xlabel = 'abc'

    class Second(Own):
        name = 'Second one'
        title = 'A title'
        ylabel = 'def'
        xscale = 'log'
        yscale = 'symlog'
    return {'First': First, 'Second': Second}


def run_own(case, ctx):
    keys, names, through = case
    log = []
    own = own_plots(log)
    tests = [test(*TESTS[k], id_=IDS[k] if through == 'object' else None)
             for k in keys]
    with screen() as shown, figs.stub():
        p = Plotting1288(*tests)
        p.plot(*[own.get(n) or getattr(plotting, 'Plot' + n)
                 for n in names])
        f = shown[-1]
        ctx.eq('number of figures', len(f), len(names))
        todo = list(log)
        for n, fig in zip(names, f):
            ctx.step()
            if n not in own:
                continue
            mine, todo = todo[:len(tests) + 1], todo[len(tests) + 1:]
            ctx.eq('one object', len({m[1] for m in mine}), 1)
            ctx.eq('calls', [(m[0], m[2]) for m in mine],
                   [(n, 'plot')] * len(tests) + [(n, 'end')])
            ctx.true('every test in order', all(
                m[3] is t for m, t in zip(mine, tests)))
            ax = fig.axes[0]
            c = own[n]
            ctx.eq('set up', [len(fig.axes), ax.get_title(), ax.get_xlabel(),
                              ax.get_ylabel(), ax.get_xscale(),
                              ax.get_yscale()],
                   [1, c.title or c.name, c.xlabel or '', c.ylabel or '',
                    c.xscale or 'linear', c.yscale or 'linear'])
            ctx.close('lines', [[x[1]] + x[4] for x in figs.lines(fig)],
                      [['%d:own' % t.id, t.K, t.R] for t in tests], 1e-12)
        ctx.eq('nothing else called', todo, [])
    ctx.state(case)
    ctx.outcome(len(log))


def spaces(tier):
    deep = tier == 'thorough'
    n = len(TESTS)
    cases = []
    one = [(k,) for k in range(n)]
    pairs = list(itertools.product(range(n), repeat=2))
    triples = [t for t in itertools.product(range(n), repeat=3)
               if deep or len(set(t)) == 3]
    quad = list(itertools.permutations(range(n))) if deep else [(3, 1, 2, 0)]
    for ls in one + pairs + triples + quad + [()]:
        for sel in SELECT:
            if sel == 'all' and len(ls) > 2 and not deep and len(ls) < 4:
                continue
            if ls or sel in ('one', 'twice'):
                cases.append(([ls], [(0, sel)], False))
    hist = []
    some = [((0, 1), (2,)), ((1, 0), (0, 3)), ((2, 2), (2, 1))] + (
        [((0,), (0, 1, 2)), ((3, 2), (1,))] if deep else [])
    sels = ('one', 'two', 'profiles', 'hist') if deep else ('two', 'hist')
    for ls in some:
        for L in (2, 3):
            for calls in itertools.product(
                    itertools.product(range(2), sels), repeat=L):
                if L == 3 and not deep and calls[0][1] != calls[2][1]:
                    continue
                for keep_open in (False, True):
                    hist.append((ls, calls, keep_open))
    call = [(kw, sel) for kw in ({}, {'mode': 'photon'}, {'bits': 12,
                                                          'n': 9})
            for sel in ('all', 'one', 'hist')]
    own = [(ls, ns, 'object')
           for ls in [(0,), (1, 0), (3, 0, 1), (2, 2)]
           for L in (1, 2, 3)
           for ns in itertools.product(('First', 'Second', 'PTC'), repeat=L)]
    many = [([tuple(i % n for i in range(0, 4))], [(0, 'two')], False)]
    for L in (10, 11, 13):
        ls = tuple((i * i + i // 4) % n for i in range(L))
        many += [([ls], [(0, s)], False) for s in ('one', 'two', 'hist',
                                                   'profiles')]
    some_ids = [(a, b, c, d) for a in (None, 0, 7) for b in (None, 1)
                for c in (None, 2, 10 ** 12) for d in (None, 3)]
    noid = [([ls], [(0, s)], False, g) for g in some_ids
            for ls, s in (((0, 1), 'one'), ((2, 0, 3), 'two'),
                          ((3, 1, 2, 0), 'hist'))]
    noid += [([(0, 1), (1, 2)], [(0, 'one'), (1, 'one'), (0, 'two')], k, g)
             for g in some_ids for k in (False, True)]
    return [Space('ids', noid, run, chunk=2, pristine=True,
                  bound='every selection of the tests without an id'),
            Space('own plots', own, run_own,
                  bound='every sequence of up to 3 of two own plots and a '
                  'standard one'),
            Space('many tests', many, run, chunk=1, pristine=True,
                  bound='lists of 10, 11 and 13 tests'),
            Space('lists', cases, run, chunk=2, pristine=True,
                  bound='lists of up to 4 of %d tests' % n),
            Space('histories', hist, run, chunk=2, pristine=True,
                  bound='up to 3 calls on two objects'),
            Space('one call', call, run_call, chunk=1,
                  bound='%d measurements and selections' % len(call))]
