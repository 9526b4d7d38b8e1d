"""C17: result XML"""
import itertools
import math
import os
import re
import numpy as np
from ..core import Space
from .c09 import curve, DEFAULT
from emva1288.process import Results1288, routines

ID = 'C17'
RULE = ('every bounded result dictionary over sections, quantities, value '
        'kinds and data arrays; via file, text and bytes; every prefix of a '
        'result document; exact comparison')
ASSUME = ['section and quantity names are XML names, data arrays are one '
          'dimensional, numbers are doubles or integers up to '
          '2**53']
NUM = [0, 1, -1, 0.0, -0.5, 1.5, 1e-300, 5e-324, 1.7976931348623157e308,
       math.pi, 1 / 3., 1e22, 123456789.123456789, 2 ** 53, -1e-7, 100,
       float('nan'), float('inf'), float('-inf'), None]
WRAP = {'py': lambda v: v, 'np': lambda v: v if v is None else
        (np.int64(v) if isinstance(v, int) else np.float64(v))}


def expect(d):
    out = {}
    for s in d:
        out[s.lower()] = o = {}
        for k, v in d[s].items():
            if 'data' in v:
                o[k.lower()] = ('data', {
                    a.lower(): np.asarray(x, np.float64)
                    for a, x in v['data'].items()})
            else:
                w = v['value']
                o[k.lower()] = ('value', None if w is None else float(w))
    return out


def seen(d):
    return {s: {k: (('data', dict(v['data'])) if 'data' in v
                    else ('value', v['value']))
                for k, v in d[s].items()} for s in d}


def freeze(d):
    return repr(d)


def roundtrip(ctx, d, via):
    before = freeze(d)
    want = expect(d)
    fn = os.path.join(ctx.tmp, 'r.xml')
    ctx.step()
    if via == 'file':
        routines.dict_to_xml(d, filename=fn)
        src = fn
    elif via == 'root':
        src = routines.dict_to_xml(d, root='emva1288')
    else:
        src = routines.dict_to_xml(d)
        if via == 'text' and isinstance(src, bytes):
            src = src.decode('utf-8')
        if via == 'bytes' and isinstance(src, str):
            src = src.encode('utf-8')
    ctx.eq('dictionary unmodified', freeze(d), before)
    got = routines.xml_to_dict(src)
    ctx.true('readable', got is not None)
    ctx.eq('round trip', seen(got), want)
    for s in got:
        for k, v in got[s].items():
            if 'data' in v:
                for x in v['data'].values():
                    ctx.true('array of numbers', isinstance(x, np.ndarray)
                             and x.dtype.kind == 'f')
            else:
                ctx.true('number', v['value'] is None or
                         isinstance(v['value'], float))
    # again: what was read is not disturbed by reading again
    keep = freeze(got)
    routines.xml_to_dict(src)
    ctx.eq('stable', freeze(got), keep)
    return got


VIA = ('file', 'text', 'bytes', 'root')


def run_values(case, ctx):
    i, j, wrap, via = case
    f = WRAP[wrap]
    d = {'Sensitivity': {'K': {'value': f(NUM[i]), 'short': 'a<b & "c"'},
                         'sigma_D': {'unit': '$DN/e^-$',
                                     'value': f(NUM[j])}}}
    roundtrip(ctx, d, via)
    ctx.state(case)
    ctx.outcome(repr(NUM[i]), repr(NUM[j]))


def run_arrays(case, ctx):
    idx, n, kind, via = case
    vals = [NUM[i] for i in idx] * n
    a = np.array([v for v in vals], np.float64 if kind == 'f'
                 else np.int64)
    d = {'noise': {'Hist': {'data': {'Bins': a, 'values': a[::-1],
                                     'model': a[:1]}, 'short': 'h'},
                   'x': {'value': 1.25}}}
    roundtrip(ctx, d, via)
    ctx.state(case)
    ctx.outcome(a)


def run_layout(case, ctx):
    """every assignment of quantity kinds to sections"""
    kinds, via = case
    names = ('sensitivity', 'Linearity', 'OTHER')
    d = {}
    for s, ks in zip(names, kinds):
        sec = {}
        for q, k in enumerate(ks):
            sec['q%dX' % q] = {
                'num': {'value': 3.25 * (q + 1)}, 'none': {'value': None},
                'nan': {'value': float('nan'), 'short': 'n'},
                'arr': {'data': {'V': np.arange(3.) + q}},
                'two': {'data': {'V': np.arange(2) + q,
                                 'w': np.array([.5])}}}[k]
        if sec:
            d[s] = sec
    if not d:
        return
    roundtrip(ctx, d, via)
    ctx.state(case)


def run_comma(case, ctx):
    i, via = case
    v = NUM[i]
    if v is None or isinstance(v, int) or v != v:
        return
    t = routines.dict_to_xml({'s': {'q': {'value': v}}})
    t = t.decode() if isinstance(t, bytes) else t
    c = re.sub(r'<value>([^<]*)</value>',
               lambda m: m.group(0).replace('.', ','), t)
    if via == 'file':
        src = os.path.join(ctx.tmp, 'c.xml')
        with open(src, 'w') as f:
            f.write(c)
    else:
        src = c.encode() if via == 'bytes' else c
    ctx.step()
    got = routines.xml_to_dict(src)
    ctx.eq('decimal comma', got['s']['q']['value'], v)
    ctx.state(case)


DOC = ('<results><sensitivity><K><short>gain</short><value>0.5</value></K>'
       '</sensitivity></results>')


def run_broken(case, ctx):
    kind, n, via = case
    t = {'prefix': DOC[:n], 'drop': DOC[:n] + DOC[n + 1:],
         'junk': ['', ' ', 'x', '<', '<a>', '<a></b>', '&', '\x00',
                  'no_such_file.xml', '/nonexistent/dir/x.xml', '<a>&b;</a>',
                  '<a></a><b></b>', 'results', '.'][n % 14]}[kind]
    from lxml import etree
    try:
        etree.fromstring(t.encode())
        return                           # still well formed
    except etree.XMLSyntaxError:
        pass
    if via == 'file':
        src = os.path.join(ctx.tmp, 'b.xml')
        with open(src, 'w') as f:
            f.write(t)
    else:
        src = t.encode() if via == 'bytes' else t
    ctx.step()
    ctx.true('unreadable gives None', routines.xml_to_dict(src) is None, t)
    ctx.state(case)


def run_results(case, ctx):
    """the XML of real results holds their values"""
    c, area, via = case
    t = curve(dict(DEFAULT, **c))
    y, x = np.mgrid[:8, :9]
    d = 20 + (y * 7 + x * 3) % 5
    b = 100 + (y * 5 + x * 11) % 17
    sp = {'L': 4, 'L_dark': 4, 'M': 8, 'N': 9, 'M_dark': 8, 'N_dark': 9,
          'sum': b * 4, 'sum_dark': d * 4, 'avg_mean': 50.,
          'avg_mean_dark': 10., 'avg_var': 9., 'avg_var_dark': 2.,
          'var_mean': 1., 'var_mean_dark': 1., 'avg_var_cav': .5,
          'avg_var_cav_dark': .1, 'avg_var_rav': .4,
          'avg_var_rav_dark': .1}
    r = Results1288({'temporal': t, 'spatial': sp}, pixel_area=area)
    ctx.step()
    if via == 'file':
        src = os.path.join(ctx.tmp, 'x.xml')
        r.xml(src)
    else:
        src = r.xml()
        if via == 'text' and isinstance(src, bytes):
            src = src.decode()
    got = routines.xml_to_dict(src)
    ctx.eq('values', seen(got), expect(r.results_by_section))
    names = {k.lower() for k in r.results}
    ctx.eq('every quantity', {k for s in got for k in got[s]}, names)
    ctx.state(case)


FILES = ['r.xml', 'result.v1', 'xml', 'R.XML', 'a b.txt', 'caf\u00e9.xml',
         '.hidden', 'r.xml.bak', '<r>.xml']


def run_history(case, ctx):
    """several files, overwritten and read back in any order"""
    files = {}
    dicts = [{'a': {'x': {'value': 1.5}}},
             {'b': {'y': {'data': {'v': np.array([1., 2.])}}},
              'a': {'x': {'value': None}}},
             {'a': {'x': {'value': 7}, 'z': {'value': -2.5e-9}}}]
    for op, f, i in case:
        fn = os.path.join(ctx.tmp, FILES[f])
        ctx.step()
        if op == 'w':
            routines.dict_to_xml(dicts[i], filename=fn)
            files[f] = i
        got = routines.xml_to_dict(fn)
        if f in files:
            ctx.eq('last written', seen(got), expect(dicts[files[f]]))
        else:
            ctx.true('missing file', got is None)
    ctx.state(case)


def spaces(tier):
    deep = tier == 'thorough'
    n = len(NUM)
    vals = [(i, j, w, v) for i in range(n) for j in range(n)
            for w in sorted(WRAP) for v in VIA
            if i == j or deep or (i + j) % 5 == 0]
    fl = [i for i in range(n) if NUM[i] is not None]
    it = [i for i in range(n) if isinstance(NUM[i], int)]
    arr = [(ix, k, 'f', v) for m in (1, 2) for ix in
           itertools.product(fl, repeat=m) for k in (1,) for v in VIA[:3]]
    arr += [(ix, k, 'i', v) for ix in itertools.product(it, repeat=2)
            for k in (1, 300) for v in VIA[:3]]
    # empty arrays
    arr += [((), 1, t, v) for t in 'fi' for v in VIA]
    # more elements than numpy prints, many different values
    arr += [(ix, k, t, v) for k in (250, 334, 400, 2500) +
            ((25000,) if deep else ())
            for t, ix in (('i', tuple(it[:4])), ('f', tuple(fl[:7])),
                          ('f', tuple(fl[-4:]))) for v in VIA[:3]]
    if deep:
        arr += [(ix, 1, 'f', 'text') for ix in
                itertools.product(fl, repeat=3)]
    kinds = ('num', 'none', 'nan', 'arr', 'two')
    sec = [()] + [(k,) for k in kinds] + list(
        itertools.product(kinds, repeat=2))
    lay = [((a, b, c), v) for a in sec for b in sec[:6 if not deep else 31]
           for c in sec[:2 if not deep else 6] for v in VIA[:2]]
    com = [(i, v) for i in range(n) for v in VIA[:3]]
    brk = [('prefix', k, v) for k in range(len(DOC)) for v in VIA[:3]]
    brk += [('drop', k, v) for k in range(len(DOC)) for v in VIA[:3]]
    brk += [('junk', k, v) for k in range(14) for v in VIA[:3]]
    res = [({}, None, v) for v in VIA[:3]] + \
        [({'texp': te, 'K': K}, a, v) for te in ('one', 'many')
         for K in (.5, 20.) for a in (None, 25.) for v in VIA[:2]]
    ops = [('r', 0, 0)] + [('w', f, i) for f in (0, 1) for i in range(3)] + \
        [('r', 1, 0)]
    hist = list(itertools.product(ops, repeat=4 if deep else 3))
    hist += [((('w', f, i), ('r', f, 0), ('w', f, (i + 1) % 3),
               ('r', g, 0), ('w', g, i), ('r', f, 0)))
             for f in range(len(FILES)) for g in range(len(FILES))
             if f != g for i in range(3)]
    return [Space('values', vals, run_values,
                  bound='pairs of %d numbers' % n),
            Space('arrays', arr, run_arrays,
                  bound='all arrays of up to 3 of the numbers'),
            Space('layouts', lay, run_layout,
                  bound='every assignment of 5 kinds to up to 6 quantities'),
            Space('decimal commas', com, run_comma,
                  bound='every number, 3 ways to read'),
            Space('unreadable', brk, run_broken,
                  bound='every prefix and every single character deletion'),
            Space('real results', res, run_results,
                  bound='8 measurements, with and without area'),
            Space('file histories', hist, run_history,
                  bound='all sequences of up to 4 writes and reads, 9 file names')]
