"""C18: comparison of result files"""
from decimal import Decimal, ROUND_HALF_EVEN
import itertools
import os
import numpy as np
from ..core import Space
from emva1288.process import routines

ID = 'C18'
RULE = ('every pair of values straddling the seventh digit over signs and '
        'magnitudes, every pair of small data entries, every pair of layouts '
        '(missing sections, quantities, mixed kinds); against decimal '
        'rounding of the shortest representation')
ASSUME = ['finite numbers not on a rounding tie, data arrays not empty; NaN '
          'never agrees with anything']


def sig7(v):
    d = Decimal(repr(float(v)))
    if d == 0:
        return Decimal(0)
    return d.quantize(Decimal(1).scaleb(d.adjusted() - 6),
                      rounding=ROUND_HALF_EVEN)


def same_number(a, b):
    return a is not None and b is not None and a == a and b == b and \
        sig7(a) == sig7(b)


def same(a, b):
    """a, b: None (missing), ('value', v) or ('data', {k: list})"""
    if a is None or b is None or a[0] != b[0]:
        return False
    if a[0] == 'value':
        return same_number(a[1], b[1])
    x, y = a[1], b[1]
    if set(x) != set(y):
        return False
    return all(len(x[k]) == len(y[k]) and
               all(same_number(p, q) for p, q in zip(x[k], y[k]))
               for k in x)


def xml(d):
    out = {}
    for s in d:
        out[s] = {}
        for k, (kind, v) in d[s].items():
            out[s][k] = {kind: {a: np.array(b, float) for a, b in v.items()}
                         if kind == 'data' else v, 'short': 'x'}
    return routines.dict_to_xml(out)


def expected(a, b):
    out = {}
    for s in set(a) | set(b):
        if s not in a or s not in b:
            out[s] = None
            continue
        out[s] = {k: 'OK' if same(a[s].get(k), b[s].get(k)) else 'FAIL'
                  for k in set(a[s]) | set(b[s])}
    return out


def shown(ctx, cells, want):
    """the line shows what each file gives"""
    got = cells.split()
    if len(got) != 2:    # long numbers touch each other
        ctx.eq('both sides shown', ''.join(got), ''.join(map(str, want)))
        return
    for g, w in zip(got, want):
        if isinstance(w, float):
            ctx.close('shown', float(g), w, 1e-6)
        else:
            ctx.eq('shown', g, str(w))


def parse(ctx, text, sides=None):
    """{section: {quantity: verdict} or None when one side is missing}"""
    out, cur = {}, None
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith('*' * 10):
            cur = lines[i + 1].strip()
            ctx.true('one block per section', cur not in out, cur)
            out[cur] = {}
            i += 3
            continue
        if ln.strip():
            name = ln.split()[0]
            verdict = 'OK' if ln.rstrip().endswith('OK') else 'FAIL'
            ctx.true('a verdict per line', ln.rstrip().endswith(verdict), ln)
            if sides and name == 'PRESENT':
                shown(ctx, ln.strip()[len(name):-4],
                      [cur in x for x in sides])
            elif sides:
                e = [x[cur].get(name) or ('value', None) for x in sides]
                if e[0][0] == e[1][0] == 'value':
                    shown(ctx, ln.strip()[len(name):-len(verdict)],
                          [v if v is None else float(v) for _, v in e])
            if name == 'PRESENT':
                ctx.eq('missing section fails', verdict, 'FAIL')
                out[cur] = None
            else:
                ctx.true('one line per quantity', name not in out[cur], name)
                out[cur][name] = verdict
        i += 1
    return out


def check(ctx, a, b, files=False):
    xa, xb = xml(a), xml(b)
    want = expected(a, b)
    if files:
        fa, fb = (os.path.join(ctx.tmp, n) for n in ('a.xml', 'b.xml'))
        for f, x in ((fa, xa), (fb, xb)):
            with open(f, 'wb') as h:
                h.write(x if isinstance(x, bytes) else x.encode())
        xa, xb = fa, fb
    for p, q, sides in ((xa, xb, (a, b)), (xb, xa, (b, a))):
        ctx.step()
        s = routines.compare_xml(p, q)
        ctx.eq('verdicts', parse(ctx, s, sides), want)
    if files:
        out = os.path.join(ctx.tmp, 'o.txt')
        # the file may hold an earlier report, a longer one or nothing
        for p, q in ((xa, xb), (xa, xb), (xb, xa), (xb, xb), (xa, xb)):
            r = routines.compare_xml(p, q, filename=out)
            t = routines.compare_xml(p, q)
            with open(out) as h:
                ctx.eq('file equals text', h.read(), t)
            ctx.true('returns the text or nothing', r in (None, t))
        with open(out, 'w') as h:
            h.write('x' * 100000)
        routines.compare_xml(xa, xb, filename=out)
        with open(out) as h:
            ctx.eq('file is replaced', h.read(), t)
    for x in (xa, xb):
        me = a if x is xa else b
        ctx.eq('equal to itself', parse(ctx, routines.compare_xml(x, x)),
               expected(me, me))
    ctx.outcome(sorted(str(v) for v in want.values()))


BASE = ('1', '1.0000001', '1.000001', '1.0000004', '1.0000006', '0.9999999',
        '0.99999996', '0.99999994', '9.999999', '9.9999999', '9.99999994',
        '1.234567', '1.2345674', '1.2345676', '1.2345664', '1.23456',
        '5', '4.9999999', '4.999999')


def run_values(case, ctx):
    a, b = case
    check(ctx, {'s': {'q': ('value', a)}}, {'s': {'q': ('value', b)}})
    ctx.state(case)


def run_arrays(case, ctx):
    a, b = case
    check(ctx, {'s': {'q': ('data', a), 'p': ('value', 1.)}},
          {'s': {'q': ('data', b), 'p': ('value', 1.)}})
    ctx.state(case)


KINDS = {'v1': ('value', 1.5), 'v2': ('value', 2.5), 'v0': ('value', 0.0),
         'n': ('value', None), 'nan': ('value', float('nan')),
         'a1': ('data', {'x': [1., 2.]}), 'a2': ('data', {'x': [1., 3.]}),
         'a3': ('data', {'x': [1., 2.], 'y': [0.]}),
         'a4': ('data', {'x': [1.]}), 'm': None}


def run_mixed(case, ctx):
    ka, kb, files = case
    a, b = {'s': {}}, {'s': {}}
    for d, ks in ((a, ka), (b, kb)):
        for i, k in enumerate(ks):
            if KINDS[k] is not None:
                d['s']['q%d' % i] = KINDS[k]
        d['s']['zz'] = ('value', 1.)
    check(ctx, a, b, files)
    ctx.state(case)


def run_sections(case, ctx):
    sa, sb, files = case
    mk = {'1': {'q': ('value', 1.)}, '2': {'q': ('value', 2.)},
          'b': {'q': ('value', 1.), 'r': ('data', {'x': [3.]})}}
    a = {n: mk[k] for n, k in zip(('alpha', 'beta', 'gamma'), sa) if k != '-'}
    b = {n: mk[k] for n, k in zip(('alpha', 'beta', 'gamma'), sb) if k != '-'}
    if not a or not b:
        return
    check(ctx, a, b, files)
    ctx.state(case)


CATALOGUE = {
    'dark_current': ['u_I_mean', 'u_I_mean_DN', 'u_I_var', 'u_I_var_DN'],
    'defect_pixel': ['histogram_DSNU', 'histogram_DSNU_accumulated',
                     'histogram_PRNU', 'histogram_PRNU_accumulated'],
    'info': ['index_start'],
    'linearity': ['LE_max', 'LE_min', 'index_linearity_max',
                  'index_linearity_min', 'linearity'],
    'sensitivity': [
        'DR', 'DR_dB', 'K', 'QE', 'R', 'SNR_max', 'SNR_max_bit',
        'SNR_max_dB', 'index_sensitivity_max', 'index_sensitivity_min',
        'index_u_ysat', 'inverse_K', 'inverse_SNR_max', 'sigma_d',
        'sigma_y_dark', 'u_e_min', 'u_e_min_area', 'u_e_sat', 'u_e_sat_area',
        'u_p_min', 'u_p_min_area', 'u_p_sat', 'u_p_sat_area'],
    'spatial': [
        'DSNU1288', 'DSNU1288_DN', 'DSNU1288_col', 'DSNU1288_pixel',
        'DSNU1288_row', 'PRNU1288', 'PRNU1288_col', 'PRNU1288_pixel',
        'PRNU1288_row', 's_2_y', 's_2_y_cav', 's_2_y_cav_dark', 's_2_y_col',
        's_2_y_col_dark', 's_2_y_dark', 's_2_y_measured',
        's_2_y_measured_dark', 's_2_y_pixel', 's_2_y_pixel_dark',
        's_2_y_rav', 's_2_y_rav_dark', 's_2_y_row', 's_2_y_row_dark',
        'sigma_2_y_stack', 'sigma_2_y_stack_dark'],
    'other': ['something_new']}


def catalogue():
    """a result file with the names of the real ones (in lower case, as the
    comparison shows them) and a different number everywhere"""
    d, n = {}, 0
    for s in CATALOGUE:
        d[s] = {}
        for q in CATALOGUE[s]:
            n += 1
            if q.startswith('histogram'):
                v = {'bins': [n + .5 * i for i in range(9)],
                     'values': [float(n * i % 7) for i in range(9)],
                     'model': [n / (i + 1.) for i in range(9)]}
                if n % 2:
                    v = {k: v[k] for k in reversed(list(v))}
            elif q == 'linearity':
                v = {'fit_slope': [.01 * n], 'fit_offset': [-1. * n],
                     'relative_deviation': [.1 * i - n for i in range(5)],
                     'linearity_error_min': [-.1], 'linearity_error_max': [.2]}
            else:
                v = (-1) ** n * 1.2345678901 * n * 10. ** (n % 9 - 4)
            d[s][q.lower()] = ('data' if isinstance(v, dict) else 'value', v)
    return d


def run_catalogue(case, ctx):
    """one number of one of the two files is another one"""
    a, b = catalogue(), catalogue()
    if case == ['reorder'] or case == ('reorder',):
        # the order in which a file gives things is not compared
        b = {s: {q: (kind, {k: v[k] for k in reversed(list(v))}
                     if kind == 'data' else v)
                 for q, (kind, v) in reversed(list(b[s].items()))}
             for s in reversed(list(b))}
    elif case:
        s, q, k, i, f = case
        kind, v = b[s][q]
        if kind == 'data':
            x = v[k][i]
            v[k][i] = x * f if x else f - 1
        else:
            b[s][q] = (kind, v * f)
    check(ctx, a, b)
    ctx.state(case)


def run_broken(case, ctx):
    a, b = case
    ctx.step()
    ctx.eq('nothing to compare', routines.compare_xml(a, b), '')
    ctx.state(case)


def run_round(case, ctx):
    v, sig = case
    ctx.step()
    got = routines.round_significant(v) if sig == 7 else \
        routines.round_significant(v, sig)
    d = Decimal(repr(v))
    w = 0.0 if d == 0 else float(d.quantize(
        Decimal(1).scaleb(d.adjusted() - sig + 1),
        rounding=ROUND_HALF_EVEN))
    ctx.close('round_significant', float(got), w, 1e-15)
    ctx.state(case)
    ctx.outcome(w)


def spaces(tier):
    deep = tier == 'thorough'
    vals = []
    exps = (-7, 0, 12) if not deep else (-290, -30, -9, -7, -1, 0, 1, 5, 6,
                                         7, 12, 30, 290)
    for e in exps:
        nums = [float(b + 'e%d' % e) for b in BASE]
        for i, x in enumerate(nums):
            for y in nums[i:]:
                vals.append((x, y))
                vals.append((-x, -y))
            vals.append((x, -x))
    other = [0.0, -0.0, 1e-12, 1e-320, 1.0, 1e300, None, float('nan')]
    vals += list(itertools.product(other, repeat=2))
    vals += [(float(b + 'e%d' % e), float(b + 'e%d' % (e + 1)))
             for b in BASE for e in exps]
    al = (0.0, 1.0, 1.0000001, 1.000001, -1.0, 2e6, float('nan'))
    lists = [list(v) for n in (0, 1, 2) for v in itertools.product(al, repeat=n)]
    arrs = [({'x': a}, {'x': b}) for i, a in enumerate(lists)
            for b in lists[i:]]
    sm = [[], [1.0], [1.0, 1.0], [1.0, 2.0], [1.0] * 3]
    arrs += [({'x': a, 'y': b}, {'x': c, 'y': d}) for a in sm for b in sm
             for c in sm for d in sm]
    arrs += [({'x': a}, {'y': a}) for a in sm]
    arrs += [({'x': a}, {'x': a, 'y': a}) for a in sm]
    n = 300
    for k in (0, 1, 150, 299):
        b = [1.0 * i for i in range(n)]
        b[k] += 1
        arrs.append(({'x': [1.0 * i for i in range(n)]}, {'x': b}))
    ks = sorted(KINDS)
    mix = [((a,), (b,), f) for a in ks for b in ks for f in (0, 1)]
    sub = ('v1', 'v2', 'n', 'a1', 'a2', 'm')
    mix += [((a, c), (b, d), 0) for a in sub for b in sub
            for c in sub for d in sub]
    if deep:
        s3 = ('v1', 'v2', 'a1', 'm')
        mix += [(a, b, 0) for a in itertools.product(s3, repeat=3)
                for b in itertools.product(s3, repeat=3)]
    sec = [(a, b, f) for a in itertools.product('-12b', repeat=3)
           for b in itertools.product('-12b', repeat=3) for f in (0,)]
    sec += [(a, b, 1) for a in itertools.product('-1b', repeat=3)
            for b in itertools.product('-2b', repeat=3)]
    good = '<r><s><q><value>1</value></q></s></r>'
    brk = [(a, b) for a in (good, '<r>', 'none.xml', '')
           for b in (good, '<r>', 'none.xml', '') if (a, b) != (good, good)]
    rnd = [(s * float(b + 'e%d' % e), sig) for b in BASE
           for e in range(-12, 13) for s in (1, -1) for sig in (7, 3, 1)]
    rnd += [(0.0, 7), (-0.0, 3)]
    cat = [(), ('reorder',)]
    for s, d in catalogue().items():
        for q, (kind, v) in d.items():
            for f in (1 + 1e-9, 1 + 2e-5, 1.5, -1):
                if kind == 'value':
                    cat.append((s, q, None, None, f))
                else:
                    cat += [(s, q, k, i, f) for k in v
                            for i in range(len(v[k]))
                            if deep or i in (0, len(v[k]) // 2,
                                             len(v[k]) - 1)]
    return [Space('real names', cat, run_catalogue,
                  bound='every number of a file with the names of the real '
                  'results replaced by 4 others'),
            Space('pairs of values', vals, run_values,
                  bound='all pairs of %d mantissas per exponent'
                  % len(BASE)),
            Space('pairs of arrays', arrs, run_arrays,
                  bound='all pairs of arrays over the alphabets'),
            Space('kinds', mix, run_mixed, bound='all pairs of entries'),
            Space('sections', sec, run_sections,
                  bound='all pairs of layouts of 3 sections'),
            Space('unreadable', brk, run_broken,
                  bound='listed documents'),
            Space('rounding', rnd, run_round,
                  bound='mantissas x decades x digits')]
