"""C20: results do not depend on history"""
import itertools
import os
import numpy as np
from ..core import Space, digest
from .c09 import curve, DEFAULT
from .c19 import spatial, direct, documented
import matplotlib.pyplot as plt
from emva1288.process import Results1288
from emva1288.process import plotting

ID = 'C20'
RULE = ('every sequence of accesses up to a bound (every quantity, the '
        'collections, XML export, every standard plot) on one object, on '
        'several live objects that share one data dictionary, interleaved in '
        'every way; each answer must equal the answer of a fresh object, and '
        'the data must stay as given')
ASSUME = ['the reference value is the first answer of a new object with a '
          'private copy of the data; a new object answers the same as in '
          'C06-C14, where the values themselves are checked']


class T(object):
    pass


def data(kind):
    c = dict(DEFAULT)
    s = spatial()
    if kind == 'many':
        pass
    elif kind == 'one':
        c.update(texp='one', K=2., n=7, sat=4)
        s = spatial(True)
        s['sum'] = s['sum'] * 3
    elif kind == 'masked':
        c.update(K=.25, n=9, sat=7)
        y, x = np.mgrid[:8, :9]
        m = (y + x) % 2 == 0
        s['sum'] = np.ma.array(s['sum'], mask=m)
        s['sum_dark'] = np.ma.array(s['sum_dark'], mask=m)
    return {'temporal': curve(c), 'spatial': s}


def Test(*a, **k):
    """results with what the plots need"""
    r = Results1288(*a, **k)
    r.name = 'test'
    r.id = 1
    return r


def mutate(v):
    """what a careless caller may do to an answer"""
    if isinstance(v, dict):
        for k in list(v):
            if isinstance(v[k], np.ndarray) and v[k].flags.writeable:
                v[k][...] = 77
            elif isinstance(v[k], dict):
                mutate(v[k])
            v[k] = -1
        v['extra'] = 1
    elif isinstance(v, np.ndarray) and v.flags.writeable:
        v[...] = 77


def plots():
    return list(plotting.EVMA1288plots)


def do(obj, op, tmp):
    """perform op and give its answer as plain data"""
    if op == 'xml':
        fn = os.path.join(tmp, 'x.xml')
        obj.xml(fn)
        t = open(fn).read()
        os.unlink(fn)
        return t
    if op.startswith('plot:'):
        cls = [p for p in plots() if p.__name__ == op[5:]][0]
        f = plt.figure()
        try:
            p = cls(f)
            p.plot(obj)
            out = []
            for a in f.axes:
                out.append([(l.get_xdata(True), l.get_ydata(True))
                            for l in a.lines])
                out.append([np.ma.filled(im.get_array(), -1)
                            for im in a.images])
            return out
        finally:
            plt.close(f)
    if op in ('results', 'results_by_section'):
        return getattr(obj, op)
    return direct(obj, op)


def copied(v):
    if isinstance(v, dict):
        return {k: copied(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return [copied(x) for x in v]
    return v


#: live objects of a world: (data set, pixel area, saturation index)
WORLD = [('many', None, None), ('many', 20., None), ('many', 4., 4),
         ('one', 4., None), ('masked', 9., None)]
SPATIAL_HEAVY = ('histogram', 'plot', 'results', 'xml')
_REF = {}


def reference(i, op, tmp):
    k = (i, op)
    if k not in _REF:
        kind, area, idx = WORLD[i]
        o = Test(data(kind), pixel_area=area, index_u_ysat=idx)
        _REF[k] = copied(do(o, op, tmp))
    return _REF[k]


def run(case, ctx):
    """case: list of (object, operation); objects share data by kind"""
    seq, careless = case
    shared = {WORLD[i][0]: data(WORLD[i][0]) for i, _op in seq}
    before = {k: digest(v) for k, v in shared.items()}
    objs = {}
    for i, _op in seq:
        if i not in objs:
            kind, area, idx = WORLD[i]
            objs[i] = Test(shared[kind], pixel_area=area, index_u_ysat=idx)
    for n, (i, op) in enumerate(seq):
        ctx.step()
        # the reference is computed by an object of its own
        want = reference(i, op, ctx.tmp)
        got = do(objs[i], op, ctx.tmp)
        ctx.eq('%s of object %d at step %d' % (op, i, n), got, want)
        if careless:
            mutate(got)
        for k in shared:
            ctx.true('data unchanged by ' + op,
                     digest(shared[k]) == before[k], k)
        ctx.state(seq[:n + 1])
    ctx.outcome(seq[-1], before)


def spaces(tier):
    deep = tier == 'thorough'
    names = sorted(documented(Results1288))
    ops = names + ['linearity', 'results', 'results_by_section', 'xml'] + \
        ['plot:' + p.__name__ for p in plots()]
    core = ['index_u_ysat', 'K', 'QE', 'sigma_d', 'u_p_sat_area', 'DR_dB',
            'LE_max', 'linearity', 'u_I_mean', 'DSNU1288_row', 'PRNU1288',
            's_2_y_pixel_dark', 'histogram_PRNU',
            'histogram_DSNU_accumulated', 'results', 'xml']
    core = [o for o in core if o in ops]
    one = []
    for i in (1, 3, 4):
        for a, b in itertools.product(ops, repeat=2):
            heavy = a[:4] in ('plot', 'resu', 'xml') and \
                b[:4] in ('plot', 'resu', 'xml')
            if heavy and not deep and i != 4:
                continue
            if not deep and i == 3 and a[:4] == 'plot':
                continue
            one.append(([(i, a), (i, b)], False))
    trip = [([(1, a), (1, b), (1, c)], False)
            for a, b, c in itertools.product(core if deep else core[:8],
                                             repeat=3)]
    inter = []
    few = ['index_u_ysat', 'K', 'u_p_sat_area', 'linearity', 'DSNU1288',
           'histogram_DSNU']
    for n in (2, 3) + ((4,) if deep else ()):
        for objs in itertools.product(range(len(WORLD)), repeat=n):
            if len(set(objs)) < 2 or objs[0] > 2 and n > 2:
                continue
            use = core if n == 2 else few[:5] if n == 3 else few[:2]
            for o in itertools.product(use, repeat=n):
                if n == 3 and not deep and o[0] == o[2] and o[1] != o[0]:
                    continue
                inter.append((list(zip(objs, o)), False))
    care = [([(i, a), (i, b), (j, b)], True) for i, j in ((1, 2), (4, 3))
            for a in ('linearity', 'histogram_PRNU', 'histogram_DSNU',
                      'histogram_PRNU_accumulated', 'results',
                      'results_by_section')
            for b in ops if b[:4] != 'plot']
    return [Space('pairs on one object', one, run,
                  bound='every ordered pair of %d operations, 3 data sets'
                  % len(ops)),
            Space('triples on one object', trip, run,
                  bound='every ordered triple of core operations'),
            Space('interleaved objects', inter, run,
                  bound='up to %d accesses over %d live objects'
                  % (4 if deep else 3, len(WORLD))),
            Space('answers modified by the caller', care, run,
                  bound='every quantity after every modified mapping')]
