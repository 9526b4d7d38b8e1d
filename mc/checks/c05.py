"""C05: temporal moments"""
import itertools
import numpy as np
from ..core import Space
from .. import ref
from emva1288.process import Data1288

ID = 'C05'
RULE = ('every pair of tiny images over a value alphabet, every structure of '
        'exposure times and photon counts in every insertion order, every '
        'incomplete structure; against exact rational arithmetic on the '
        'images')
ASSUME = ['the reduced data are those of the loader (C03, C04)']

SP = {'L': 3, 'sum': np.array([[3, 4], [5, 6]]),
      'pvar': np.array([[1, 1], [2, 0]]), 'dmean': 0.0}


def spatial(h=2, w=2):
    d = {'L': 3, 'sum': np.arange(h * w).reshape(h, w),
         'pvar': np.ones((h, w), np.int64), 'dmean': 0.0}
    b = dict(d, sum=d['sum'] * 5)
    return {1e6: {0.0: d, 50.0: b}}


def make(points, h, w, cast=int):
    """points: ordered list of (t, p, a, b) -> loader data"""
    t = {}
    for te, p, a, b in points:
        d = ref.reduce_pair([np.array(a).reshape(h, w),
                             np.array(b).reshape(h, w)])
        d['sum'] = cast(d['sum'])
        d['pvar'] = cast(d['pvar'])
        t.setdefault(te, {})[p] = d
    return {'width': w, 'height': h, 'temporal': t, 'spatial':
            spatial(h, w)}


def verify(ctx, got, points, top):
    """got: the temporal dict"""
    pts = {(t, p): ref.temporal_point(a, b) for t, p, a, b in points}
    texp = sorted({t for t, _p in pts})
    bright = sorted(k for k in pts if k[1] != 0)
    want = {'texp': texp, 'u_p': [p for t, p in bright],
            'u_y': [float(pts[k][0]) for k in bright],
            's2_y': [float(pts[k][1]) for k in bright],
            'u_ydark': [float(pts[t, 0.0][0]) for t in texp],
            's2_ydark': [float(pts[t, 0.0][1]) for t in texp]}
    if len(texp) == 1:
        for k in ('texp', 'u_ydark', 's2_ydark'):
            want[k] = want[k] * len(bright)
    ctx.eq('keys', set(want) <= set(got), True)
    for k in want:
        sc = {'texp': 0, 'u_p': 0, 'u_y': top, 'u_ydark': top,
              's2_y': top ** 2, 's2_ydark': top ** 2}[k]
        ctx.true(k + ' is array', isinstance(got[k], np.ndarray))
        ctx.close(k, got[k], np.array(want[k]), 1e-12, 1e-13 * sc)


def run_pair(case, ctx):
    h, w, vals, top, cast = case
    n = h * w
    a, b = vals[:n], vals[n:]
    points = [(1e6, 0.0, b, a), (1e6, 10.0, a, b)]
    ctx.step()
    d = Data1288(make(points, h, w, {'int': int, 'np': np.int64}[cast]))
    verify(ctx, d.data['temporal'], points, top)
    ctx.state(vals, h, w)
    ctx.outcome(ref.temporal_point(a, b))


def pix(k, n, top):
    return [(k * 7919 + i * 104729 + (k * i) ** 2) % (top + 1)
            for i in range(n)]


def points_of(struct, top=4095, n=6):
    out, k = [], 0
    for t, ps in struct:
        for p in ps:
            k += 1
            # distinct per point, independent of the order
            key = int(t * 31 + p * 17) % 9973
            out.append((t, p, pix(key, n, top), pix(key + 5, n, top)))
    return out


def freeze(d):
    return repr(d)


def run_struct(case, ctx):
    points = points_of(case)
    data = make(points, 2, 3)
    before = freeze(data)
    ctx.step()
    d = Data1288(data)
    verify(ctx, d.data['temporal'], points, 4095)
    ctx.true('input unmodified', freeze(data) == before)
    ctx.state(sorted((t, sorted(p)) for t, p in case))
    ctx.outcome(len(d.data['temporal']['texp']),
                len(d.data['temporal']['u_p']))


TYPES = {'int': int, 'float': float, 'int64': np.int64,
         'float64': np.float64, 'int32': np.int32}


def run_types(case, ctx):
    n, order, kt, kp = case
    run_struct([(TYPES[kt](STRUCTS[n][i][0]),
                 [TYPES[kp](p) for p in STRUCTS[n][i][1]])
                for i in order], ctx)
    ctx.state(case)


EQUAL = [(0, 0), (40, 3), (40, 9), (4095, 4095)]


def run_equal(case, ctx):
    """the same images at several points"""
    struct, pick = case
    ks = [(t, p) for t, ps in struct for p in ps]
    points = [(t, p, pix(EQUAL[i][0], 6, 4095), pix(EQUAL[i][1], 6, 4095))
              for (t, p), i in zip(ks, pick)]
    data = make(points, 2, 3)
    ctx.step()
    d = Data1288(data)
    verify(ctx, d.data['temporal'], points, 4095)
    ctx.state(case)
    ctx.outcome(sorted(pick))


def run_missing(case, ctx):
    points = points_of(case)
    data = make(points, 2, 3)
    ctx.raises('incomplete exposure', ValueError, Data1288, data)
    ctx.state(case)


def run_big(case, ctx):
    """large images: scale of the sums; and the pixels argument"""
    h, w, top, pattern, give = case
    n = h * w
    i = np.arange(n)
    a = {'max': np.full(n, top), 'ramp': i % (top + 1),
         'near': np.full(n, top - 1)}[pattern]
    b = {'max': np.full(n, top), 'ramp': (i * 3 + 1) % (top + 1),
         'near': top - (i % 2)}[pattern]
    points = [(5.0, 0.0, a * 0, b % 2), (5.0, 3.5, a, b)]
    t = {}
    for te, p, x, y in points:
        x, y = x.astype(np.int64), y.astype(np.int64)
        t.setdefault(te, {})[p] = {
            'sum': (x + y).sum(), 'pvar': (2 * (x - y) ** 2).sum(),
            'dmean': float(y.mean() - x.mean())}
    data = {'width': w, 'height': h, 'temporal': t, 'spatial': spatial()}
    ctx.step()
    d = Data1288(data, pixels=n) if give else Data1288(data)
    got = d.data['temporal']
    x, y = a.astype(float), b.astype(float)
    ctx.close('u_y', got['u_y'], np.array([(x.mean() + y.mean()) / 2]),
              1e-12)
    v = ((x - y) ** 2).mean() / 2 - (x.mean() - y.mean()) ** 2 / 2
    ctx.close('s2_y', got['s2_y'], np.array([v]), 1e-10, 1e-9 * top)
    ctx.state(case)


def run_history(case, ctx):
    """data objects do not influence each other"""
    alive = []
    structs = STRUCTS[:4]
    for i in case:
        pts = points_of(structs[i])
        ctx.step()
        alive.append((Data1288(make(pts, 2, 3)).data['temporal'], pts))
        for g, p in alive:
            verify(ctx, g, p, 4095)
    ctx.state(case)


STRUCTS = [
    [(1e6, [0.0, 10.0])],
    [(1e6, [0.0, 10.0, 20.0, 5.0])],
    [(1e6, [0.0, 10.0]), (2e6, [0.0, 20.0])],
    [(1e6, [0.0, 10.0]), (2e6, [0.0, 20.0]), (3e6, [0.0, 30.0])],
    [(1e6, [0.0, 10.0, 11.5]), (2e6, [0.0, 20.0]), (10.5, [0.0, .5])],
]


NEAR = [
    [(te, [0.0, p]) for te, p in zip(ts, ps)]
    for ts in ((1000.25, 1000.5, 1000.75, 1000.125),
               (.5, .25, .125, .75), (1e-9, 2e-9, 3e-10), (1., 1.5, 2., 1.75),
               (1e6, 1e6 + 1e-6, 1e6 - 1e-6), (1e9, 1e9 + .5, 1e9 - .5, 1.),
               (1e15, 1e15 + 1, 2e15, 3.5), (.1, .3, .1 * 3, .2),
               (9.5, 10.5, 100.5, 1.5))
    for ps in ((5.5, 5.25, 5.75, 5.125), (1e-12, 2e-12, 3e-13, 1.),
               (1e9, 1e9 + .125, 1e9 - .5, 7.))] + [
    [(te, [0.0] + list(ps))] for te in (.25, 1e6)
    for ps in ((5.25, 5.75, 5.5, 5.125), (1e-12, 1e9, .1 * 3, .3),
               (1e6, 1e6 + 1e-6, 1e6 - 1e-6))]


def spaces(tier):
    deep = tier == 'thorough'
    pr = []
    for h, w, al in ((1, 1, (0, 1, 2, 127, 255, 4095, 65535)),
                     (1, 2, (0, 1, 255, 65535)),
                     (2, 1, (0, 3, 65535)), (1, 3, (0, 1, 255)),
                     (2, 2, (0, 255))) + \
            (((2, 2, (0, 1, 4095)), (1, 3, (0, 1, 2, 65535)))
             if deep else ()):
        for v in itertools.product(al, repeat=2 * h * w):
            pr.append((h, w, v, max(al), 'int'))
    pr += [(1, 2, v, 255, 'np')
           for v in itertools.product((0, 255), repeat=4)]
    st = []
    for s in STRUCTS:
        for o in itertools.permutations(range(len(s))):
            inner = [list(itertools.permutations(s[i][1])) for i in o]
            for ps in itertools.product(*inner):
                st.append([(s[i][0], list(p)) for i, p in zip(o, ps)])
    # exposure times and photon counts which are nearly equal, tiny, huge
    for s in NEAR:
        for o in itertools.permutations(range(len(s))):
            for rev in (0, 1):
                st.append([(s[i][0], s[i][1][::-1] if rev else s[i][1])
                           for i in o])
    for n in (4, 7, 130, 260) + ((20, 50, 1030) if deep else ()):
        st.append([(1e6 * (n - k), [0.0, 3.0 * k + 1]) for k in range(n)])
        st.append([(1e6, [3.0 * k + 1 for k in range(n, 0, -1)] + [0.0])])
    # every choice of photon counts at up to 4 exposure times
    some = [list(c) for n in (1, 2, 3)
            for c in itertools.combinations((20.0, 5.0, 10.5), n)]
    for n in range(1, 5 if deep else 4):
        for pp in itertools.product(some, repeat=n):
            st.append([(t, p + [0.0]) for t, p in
                       zip((3e6, 1e6, 2.5e6, 7.0), pp)])
    eq = []
    for s in STRUCTS + [[(t, [0.0, 7.0]) for t in (1e6, 2e6, 3e6, 4e6)]]:
        n = sum(len(p) for t, p in s)
        eq += [(s, k) for k in itertools.product(
            range(4 if deep and n < 8 else (3 if n < 7 else 2)), repeat=n)]
    # numbers that are integers (a descriptor is not the only source)
    ty = [(n, o, kt, kp) for n in range(4)
          for o in itertools.permutations(range(len(STRUCTS[n])))
          for kt, kp in itertools.product(sorted(TYPES), repeat=2)]
    ms = []
    for s in STRUCTS:
        for i, (t, ps) in enumerate(s):
            ms.append(s[:i] + [(t, [p for p in ps if p])] + s[i + 1:])
            ms.append(s[:i] + [(t, [0.0])] + s[i + 1:])
    bg = [(h, w, top, p, g) for h, w in ((64, 48), (480, 640), (1, 1000),
                                         (1000, 1))
          for top in (255, 4095, 65535) for p in ('max', 'ramp', 'near')
          for g in (0, 1)]
    hi = list(itertools.product(range(4), repeat=3 if deep else 2))
    return [Space('all image pairs', pr, run_pair,
                  bound='all pairs of tiny images over the alphabets'),
            Space('structures', st, run_struct,
                  bound='every insertion order of %d structures, every choice '
                  'of 3 photon counts at up to 4 exposure times'
                  % (len(STRUCTS) + len(NEAR))),
            Space('equal points', eq, run_equal,
                  bound='every assignment of up to 4 pairs of images to the '
                  'points of %d structures' % (len(STRUCTS) + 1)),
            Space('number types', ty, run_types,
                  bound='all pairs of 5 types of exposure times and photon '
                  'counts'),
            Space('incomplete', ms, run_missing,
                  bound='every missing dark or bright point'),
            Space('sizes', bg, run_big, bound='listed sizes and extremes'),
            Space('histories', hi, run_history,
                  bound='all sequences of data objects')]
