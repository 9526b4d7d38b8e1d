"""C25: patterns, Bayer filters and quantum efficiency"""
import itertools
import numpy as np
from ..core import Space
from ..util import big_shapes
from emva1288.camera import routines, Camera
from emva1288.camera.routines import Qe

ID = 'C25'
RULE = ('every pattern size with every requested size up to a bound; every '
        'assignment of channel wavelengths on several wavelength grids; '
        'every combination of quantum efficiency, filter and size, matching '
        'or not; element by element')
ASSUME = ['channel wavelengths are integers; on a wavelength grid without '
          'the channel wavelength the peak is at one of its two neighbours']


def run_tile(case, ctx):
    ph, pw, kind, h, w = case
    n = pw * (ph or 1)
    a = np.arange(1, n + 1)
    if kind == 'float':
        a = a / 7.
    elif kind == 'bool':
        a = a % 2 == 0
    elif kind == 'uint8':
        a = a.astype(np.uint8)
    a = a if ph is None else a.reshape(ph, pw)
    if kind == 'strided' and ph is not None:
        a = np.arange(1, n + 1).reshape(pw, ph).T
    keep = a.copy()
    ctx.step()
    got = np.asarray(routines.get_tile(a, h, w))
    want = np.array([[(a[x % pw] if ph is None else a[y % ph, x % pw])
                      for x in range(w)] for y in range(h)])
    if h == 1:
        want = want[0]
    ctx.eq('shape', list(got.shape), list(want.shape))
    ctx.true('every element', np.array_equal(got, want), got, want)
    ctx.eq('pattern unmodified', a, keep)
    ctx.state(case)
    ctx.outcome(got)


def run_array_tile(case, ctx):
    ph, pw, n, h, w = case
    a = np.arange(ph * pw * n, dtype=float).reshape(ph, pw, n)
    f = getattr(routines, 'array_tile', None)
    ctx.state(case)
    if f is None:
        return
    ctx.step()
    got = np.asarray(f(a.copy(), h, w))
    y, x = np.mgrid[:h, :w]
    ctx.eq('tile', got, a[y % ph, x % pw])
    ctx.outcome(got)


GRIDS = {'fine': np.arange(400., 701., 5.), 'coarse': np.array([400., 450.,
                                                              550., 650.]),
         'one': np.array([550.]), 'default': np.linspace(400, 800, 100),
         'int': np.arange(450, 660, 10),
         'shifted': np.array([430., 500., 570., 610.])}


def run_bayer(case, ctx):
    t, w, h, grid = case
    wl = GRIDS[grid]
    keep = wl.copy()
    ctx.step()
    b = np.asarray(routines.get_bayer_filter(t[0], t[1], t[2], t[3], w, h,
                                             wl))
    ctx.eq('wavelengths unmodified', wl, keep)
    ctx.eq('shape', list(b.shape), [h, w, len(wl)])
    ctx.true('transmissions between 0 and 1', b.min() >= 0 and
             b.max() <= 1 + 1e-9)
    for y in range(h):
        for x in range(w):
            c = b[y, x]
            ctx.eq('repeats every two pixels', c, b[y % 2, x % 2])
    for k in range(4):
        y, x = k // 2, k % 2
        if y >= h or x >= w:
            continue
        c = b[y, x]
        ctx.close('peak of channel %d' % k, float(c.max()), 1., 1e-9)
        g = wl.astype(int)
        below = [i for i in range(len(g)) if g[i] <= t[k]]
        above = [i for i in range(len(g)) if g[i] >= t[k]]
        near = {below[-1] if below else above[0],
                above[0] if above else below[-1]}
        if len(near) == 1:
            ctx.close('channel %d is 1 at its wavelength' % k,
                      float(c[near.pop()]), 1., 1e-9)
        else:
            ctx.true('channel %d peaks at its wavelength' % k,
                     int(np.argmax(c)) in near, np.argmax(c), near)
        i = int(np.argmax(c))
        ctx.true('channel %d falls off' % k,
                 all(c[j] <= c[j + 1] + 1e-12 for j in range(i)) and
                 all(c[j] + 1e-12 >= c[j + 1] for j in range(i + 1,
                                                            len(c) - 1)))
    # same wavelength, same transmission
    for i, j in itertools.combinations(range(4), 2):
        if t[i] == t[j] and max(i, j) // 2 < h and \
                (w > 1 or (i % 2 == 0 and j % 2 == 0)):
            ctx.eq('equal channels', b[i // 2, i % 2], b[j // 2, j % 2])
    ctx.state(case)
    ctx.outcome(b)


def run_qe(case, ctx):
    qh, qw, qn, h, w, n, filt = case
    qe = np.arange(qh * qw * qn, dtype=float).reshape(qh, qw, qn) / 10.
    wl = np.linspace(400, 700, n)
    f = None
    if filt == 'full':
        f = 1 + np.arange(h * w * n, dtype=float).reshape(h, w, n)
    elif filt == 'scalar':
        f = .5
    elif filt == 'spectrum':
        f = np.linspace(0, 1, n)
    elif filt == 'pixels':
        f = (1. + np.arange(h * w)).reshape(h, w, 1)
    kq, kf, kw = qe.copy(), np.copy(f) if f is not None else None, wl.copy()

    def make():
        return Qe(qe=qe, wavelength=wl, width=w, height=h, filter=f)
    if (qh, qw, qn) != (h, w, n):
        ctx.raises('mismatch', ValueError, make)
    else:
        ctx.step()
        q = make()
        ctx.close('filtered', np.asarray(q.qe), kq if f is None else kq * kf,
                  1e-12)
        ctx.eq('wavelengths', np.asarray(q.w), kw)
        ctx.eq('once more', np.asarray(make().qe), np.asarray(q.qe))
        ctx.outcome(q.qe)
    ctx.eq('inputs', [qe, wl], [kq, kw])
    if f is not None:
        ctx.eq('filter', f, kf)
    ctx.state(case)


def run_builtin(case, ctx):
    h, w, grid, bayer, via = case
    wl = GRIDS[grid] if grid != 'wide' else np.linspace(1, 3000, 60)
    f = None
    if bayer:
        f = routines.get_bayer_filter(530, 610, 450, 530, w, h, wl)
    ctx.step()
    if via == 'camera':
        q = Camera(width=w, height=h).qe
    else:
        q = Qe(wavelength=wl, width=w, height=h, filter=f)
        ctx.eq('wavelengths', np.asarray(q.w), wl)
    a = np.asarray(q.qe)
    ctx.eq('shape', list(a.shape), [h, w, len(q.w)])
    ctx.true('never negative, at most one', a.min() >= 0 and a.max() <= 1)
    ctx.true('sensitive somewhere', via != 'camera' or a.max() > 0)
    plain = np.asarray(Qe(wavelength=np.asarray(q.w), width=1,
                          height=1).qe)[0, 0]
    want = np.zeros(a.shape) + plain
    if f is not None and via != 'camera':
        want = want * f
    ctx.close('the same for every pixel', a, want, 1e-12)
    ctx.state(case)
    ctx.outcome(a)


def run_history(case, ctx):
    """helpers called one after the other"""
    for what, args in case:
        {'bayer': run_bayer, 'built-in': run_builtin, 'tile': run_tile}[
            what](args, ctx)
    ctx.state(case)


def spaces(tier):
    deep = tier == 'thorough'
    N = 9 if deep else 6
    tile = []
    for ph in (None, 1, 2, 3, 4):
        for pw in (1, 2, 3, 4):
            for h in range(1, N):
                for w in range(1, N):
                    for k in ('int', 'float', 'bool', 'uint8', 'strided'):
                        if k != 'int' and not deep and (h + w) % 2:
                            continue
                        tile.append((ph, pw, k, h, w))
    tile += [(2, 3, 'int', h, w) for h in (64, 65) for w in (100, 101, 102)]
    for h, w in big_shapes(deep, (1, 5), ((130, 257),)):
        tile += [(p, q, 'uint8', h, w) for p, q in
                 ((None, 3), (2, 3), (3, 2), (4, 4))]
    at = [(ph, pw, n, h, w) for ph in (1, 2, 3) for pw in (1, 2, 3)
          for n in (1, 2) for h in range(1, N) for w in range(1, N)]
    bay = []
    al = (450, 530, 610)
    for t in itertools.product(al, repeat=4):
        for g in ('fine', 'coarse', 'int') if deep else ('fine',):
            for w, h in ((2, 2), (3, 3)):
                bay.append((t, w, h, g))
    for g in sorted(GRIDS):
        for w in range(1, 6):
            for h in range(1, 6):
                bay.append(((530, 610, 450, 531), w, h, g))
                bay.append(((400, 699, 550, 500), w, h, g))
    qe = []
    for qd in itertools.product((1, 2, 3), repeat=3):
        for d in itertools.product((1, 2, 3), repeat=3):
            for f in (None, 'full', 'scalar', 'spectrum', 'pixels') \
                    if qd == d else (None, 'scalar'):
                qe.append(qd + d + (f,))
    bi = [(h, w, g, b, 'qe') for h in (1, 2, 5) for w in (1, 3, 4)
          for g in ('fine', 'coarse', 'default', 'one', 'wide')
          for b in ((0, 1) if g != 'wide' else (0,))]
    bi += [(h, w, 'default', 0, 'camera') for h in (1, 2, 7)
           for w in (1, 5)]
    for n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 1025):
        bi += [(h, w, 'coarse', b, 'qe') for h, w in ((n, 3), (3, n))
               for b in (0, 1)]
        at += [(2, 3, 2, n, 5), (3, 2, 2, 5, n)]
    for n in (63, 64, 65, 129, 257):
        bay += [((530, 610, 450, 531), w, h, 'coarse')
                for h, w in ((n, 3), (3, n))]
    calls = [('bayer', (t, w, h, g)) for t in ((530, 610, 450, 531),
                                               (610, 530, 531, 450))
             for w, h in ((2, 3), (3, 2)) for g in ('coarse', 'shifted')]
    calls += [('built-in', (h, w, g, b, 'qe')) for h, w in ((2, 3), (3, 2))
              for g in ('coarse', 'shifted') for b in (0, 1)]
    calls += [('tile', (p, q, k, h, w)) for p, q in ((2, 3), (3, 2))
              for k in ('int', 'float') for h, w in ((4, 6), (6, 4))]
    hist = list(itertools.product(calls, repeat=2))
    if deep:
        hist += list(itertools.product(calls[::2], repeat=3))
    return [Space('histories', hist, run_history,
                  bound='all pairs of %d calls%s' % (
                      len(calls), ', all triples of half of them'
                      if deep else '')),
            Space('tiles', tile, run_tile,
                  bound='patterns up to 4 x 4, sizes up to %d' % (N - 1)),
            Space('colour tiles', at, run_array_tile,
                  bound='patterns up to 3 x 3, sizes up to %d' % (N - 1)),
            Space('bayer', bay, run_bayer,
                  bound='all assignments of 3 wavelengths; all sizes up to '
                  '5 x 5'),
            Space('quantum efficiency', qe, run_qe,
                  bound='all dimensions up to 3'),
            Space('built-in', bi, run_builtin, bound='5 grids')]
