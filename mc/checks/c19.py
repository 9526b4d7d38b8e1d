"""C19: the result catalogue"""
import contextlib
import io
import itertools
import numpy as np
from ..core import Space
from ..util import deviations
from .c09 import curve, DEFAULT, AXES
from .c19_gold import GOLD
from emva1288.process import Results1288, routines

ID = 'C19'
RULE = ('every documented quantity on every data set within a number of '
        'deviations from a default; every docstring layout of bounded '
        'classes for the documentation parser; against an independent '
        'docstring reader and direct access on a fresh object')
ASSUME = ['a block starts at ".. emva1288::" and ends at the first blank '
          'line', 'labels of the quantities as documented today '
          '(mc/checks/c19_gold.py)']


def read_doc(doc):
    """independent reader; None if there is no block"""
    info, on, any_ = {}, False, False
    for ln in (doc or '').split('\n'):
        ln = ln.strip()
        if ln.startswith('.. emva1288::'):
            on = True
        elif on and not ln:
            on = False
        elif on:
            any_ = True
            if ln.startswith(':') and ':' in ln[1:]:
                tag, val = ln[1:].split(':', 1)
                if tag.strip() and val.strip():
                    info[tag.strip().lower()] = val.strip()
    if not any_:
        return None
    info.setdefault('section', 'other')
    return info


def documented(cls):
    out = {}
    for k, v in vars(cls).items():
        i = read_doc(getattr(v, '__doc__', None))
        if i is not None:
            out[k] = i
    return out


def spatial(neg=False):
    y, x = np.mgrid[:8, :9]
    d = 20 + (y * 7 + x * 3) % 5
    b = 100 + (y * 5 + x * 11) % 17
    return {'L': 4, 'L_dark': 6, 'M': 8, 'N': 9, 'M_dark': 8, 'N_dark': 9,
            'sum': b * 4, 'sum_dark': d * 6, 'avg_mean': 50., 'texp': 1e6,
            'avg_mean_dark': 10., 'avg_var': 9., 'u_p': 10.,
            'avg_var_dark': -2. if neg else 2., 'var_mean': 1.5,
            'var_mean_dark': 1.1, 'avg_var_cav': .5, 'avg_var_cav_dark': .1,
            'avg_var_rav': .4, 'avg_var_rav_dark': .15}


def direct(r, name):
    v = getattr(r, name)
    return v() if callable(v) else v


def run_results(case, ctx):
    c, area, neg, forced = case

    def new():
        return Results1288({'temporal': curve(c), 'spatial': spatial(neg)},
                           pixel_area=area,
                           index_u_ysat=forced)
    r = new()
    ctx.step()
    res = r.results
    doc = documented(Results1288)
    ctx.eq('exactly the documented quantities', sorted(res), sorted(doc))
    for k in doc:
        ctx.step()
        e = dict(res[k])
        v = direct(new(), k)
        ctx.true(k + ' has value or data', ('value' in e) != ('data' in e))
        ctx.true(k + ' data for mappings', ('data' in e) ==
                 isinstance(v, dict))
        got = e.pop('data') if 'data' in e else e.pop('value')
        ctx.eq(k, got, v)
        ctx.eq(k + ' labels', e, doc[k])
    by = r.results_by_section
    want = {}
    for k in doc:
        want.setdefault(doc[k]['section'], {})[k] = res[k]
    ctx.eq('sections', {s: set(by[s]) for s in by},
           {s: set(want[s]) for s in want})
    ctx.eq('grouped', {s: dict(by[s]) for s in by}, want)
    ctx.eq('once more', r.results, res)
    check_printed(ctx, r, want)
    ctx.state(case)
    ctx.outcome({k: v.get('value') for k, v in res.items()})


def check_printed(ctx, r, want):
    """the printed table has one line per number, under its section"""
    out = io.StringIO()
    ctx.step()
    with contextlib.redirect_stdout(out):
        r.print_results()
    blocks, cur = {}, None
    for ln in out.getvalue().split('\n'):
        ln = ln.strip()
        if not ln.strip('*-= '):
            continue
        if ln in want:
            ctx.true('one block per section', ln not in blocks, ln)
            cur = blocks[ln] = []
        else:
            ctx.true('printed under a section', cur is not None, ln)
            cur.append(ln)
    ctx.eq('printed sections', sorted(blocks), sorted(want))
    for s in want:
        left = list(blocks[s])
        for k, v in sorted(want[s].items(), key=lambda i: -len(
                i[1].get('short', ''))):
            if 'value' not in v:
                continue
            ok = [ln for ln in left if ln.startswith(v.get('short', ''))
                  and printed(ln, v['value'])]
            ctx.true('printed ' + k, ok, v, blocks[s])
            left.remove(ok[0])
        ctx.eq('nothing else printed', left, [])


def printed(line, value):
    if line.endswith(str(value)):
        return True
    try:
        got = float(line.split()[-1])
    except ValueError:
        return False
    return value is not None and abs(got - value) <= 1e-6 * abs(value)


def run_gold(case, ctx):
    ctx.step()
    info = routines.cls_1288_info(Results1288)
    for k, (sec, sym, unit) in GOLD.items():
        ctx.true('still reported: ' + k, k in info)
        ctx.eq(k + ' section', info[k]['section'], sec)
        ctx.eq(k + ' symbol', info[k].get('symbol'), sym)
        ctx.eq(k + ' unit', info[k].get('unit'), unit)
    ctx.eq('same as documented', {k: dict(v) for k, v in info.items()},
           documented(Results1288))
    ctx.state('gold')


LINES = {'t': 'Some text here.', 'T': 'Note: this.', 'b': '', 'd': '.. emva1288::',
         's': '    :Section: sensitivity', 'u': '    :Unit: $DN/e^-$',
         'c': '    :Short: a: b :c', 'l': '    :LatexName: UPMin',
         'S': '  :Section:   Other Name  ', 'e': '    :Symbol:',
         'x': '    continued text'}


def synth(docs, indent):
    ns = {}
    for i, d in enumerate(docs):
        text = ('\n' + ' ' * indent).join(LINES[k] for k in d) \
            if d is not None else None
        if i % 3 == 0:
            f = property(lambda self, i=i: i + .5, doc=text)
        elif i % 3 == 1:
            def f(self, i=i):
                return {'x': np.arange(i + 1)}
            f.__doc__ = text
        else:
            f = property(lambda self: None, doc=text)
        ns['%s_%d' % ('zay'[i % 3], i)] = f
    return type('Synth', (object,), ns)


def run_doc(case, ctx):
    docs, indent = case
    cls = synth(docs, indent)
    ctx.step()
    want = documented(cls)
    got = routines.cls_1288_info(cls)
    ctx.eq('parsed documentation', {k: dict(v) for k, v in got.items()},
           want)
    res = routines.obj_to_dict(cls())
    ctx.eq('quantities', sorted(res), sorted(want))
    for k in want:
        i = int(k.split('_')[1])
        e = dict(res[k])
        if i % 3 == 1:
            ctx.eq('data', e.pop('data'), {'x': np.arange(i + 1)})
        else:
            ctx.eq('value', e.pop('value'), i + .5 if i % 3 == 0 else None)
        ctx.eq('labels', e, want[k])
    first = getattr(routines, '_sections_first', None)
    if first is not None:
        by = first(res)
        w = {}
        for k in want:
            w.setdefault(want[k]['section'], {})[k] = res[k]
        ctx.eq('by section', {s: dict(by[s]) for s in by}, w)
    ctx.eq('documentation unaffected by values',
           {k: dict(v) for k, v in routines.cls_1288_info(cls).items()},
           want)
    ctx.state(case)
    ctx.outcome(want)


def spaces(tier):
    deep = tier == 'thorough'
    ax = {k: AXES[k] for k in ('K', 'n', 'sat', 'noise', 'texp', 'bend')}
    cfg = []
    for c in deviations(DEFAULT, ax, 3 if deep else 2):
        if c['n'] < 3 or c['sat'] < 1 or c['sat'] >= c['n']:
            continue
        for area, neg in ((None, False), (25., True)):
            cfg.append((c, area, neg, None))
    cfg += [(DEFAULT, 1., False, f) for f in (3, 5, 7)]
    docs = []
    for n in range(0, 5 if deep else 4):
        for d in itertools.product('tbdsuclSe' if n < 4 else 'bdsuS',
                                   repeat=n):
            docs.append(([d], 4))
    heads = [None, (), ('t',), ('d', 's'), ('T', 'b', 'd', 'u', 'c'),
             ('d', 'S', 'l'), ('d', 's', 'u', 'b', 'T'),
             ('d', 'u', 'b', 'd', 's'), ('d', 'e', 'x')]
    for a in itertools.product(heads, repeat=3 if deep else 2):
        docs.append((a, 0))
        docs.append((a + (('d', 's'),), 8))
    return [Space('results', cfg, run_results,
                  bound='up to %d deviations, 6 axes' % (3 if deep else 2)),
            Space('labels', [0], run_gold,
                  bound='all quantities'),
            Space('documentation layouts', docs, run_doc,
                  bound='all docstrings of up to %d lines'
                  % (4 if deep else 3))]
