"""C35: defective pixel injection"""
import contextlib
import itertools
import math
import numpy as np
from ..core import Space
from .. import env, sim
from ..util import big_shapes
from .c21 import qe_of
from emva1288.camera.camera import Camera
from emva1288.camera.bad_images import bad_pixel

ID = 'C35'
RULE = ('every bounded sensor, number of defects, value, number of earlier '
        'injections, and every answer of the position draw')
ASSUME = ['the position draw is numpy.random.choice (all its answers are '
          'enumerated) or any other use of the global generator (seeded)',
          'positions of defects not yet covered by earlier ones are told '
          'apart by a distinct previous value of every pixel']
TOO_MANY = object()


class Draw(object):
    """replaces numpy.random.choice by the k-th possible answer"""

    def __init__(self, k):
        self.k, self.used = k, 0

    def choice(self, a, size=None, replace=True, p=None):
        pop = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        n = 1 if size is None else int(np.prod(size))
        if n < 0 or (not replace and n > len(pop)) or \
                (n and not len(pop)):
            raise ValueError('cannot take a larger sample')
        self.used += 1
        if replace:
            # the answers a draw with repetition can give
            out = pop[[(self.k * (i + 1)) % max(1, len(pop) // 2)
                       for i in range(n)]]
        else:
            sub = combination(len(pop), n, self.k)
            if self.k % 2:
                sub = sub[::-1]
            out = pop[list(sub)] if n else pop[:0]
        if size is None:
            return out[0]
        return out.reshape(size)


def combination(m, n, k):
    it = list(itertools.islice(itertools.combinations(range(m), n), 64))
    return it[k % len(it)]


@contextlib.contextmanager
def draws(k, scripted):
    keep = np.random.choice
    state = np.random.get_state()
    d = Draw(k)
    np.random.seed(abs(k))
    if scripted:
        np.random.choice = d.choice
    try:
        yield d
    finally:
        np.random.choice = keep
        np.random.set_state(state)


def camera(h, w, full, dsnu=None, prnu=None):
    return Camera(height=h, width=w, bit_depth=12, K=.25, K_min=.25,
                  K_max=.25, K_steps=1, blackoffset=8, blackoffset_min=8,
                  blackoffset_max=9, blackoffset_steps=2, u_esat=full,
                  dark_current_ref=0., dark_signal_0=2., sigma2_dark_0=0.,
                  qe=qe_of('one', h, w), dsnu=dsnu, prnu=prnu, seed=3)


def quiet(seed, real):
    """no noise at all"""
    def pick(method, t, shape):
        return np.zeros(shape) if method != 'uniform' else \
            np.full(shape, .5)
    return sim.Script(pick, real)


def run(case, ctx):
    h, w, steps, preset, full, draw = case
    pix = h * w
    env.RNG_FACTORY[0] = quiet
    own = None
    if preset:
        own = (.5 + np.arange(pix, dtype=float)).reshape(h, w)
        if preset == 'list':
            own = np.rint(own).astype(int)
    keep = None if own is None else own.copy()
    cam = camera(h, w, full, own)
    other = camera(h, w, full, own)
    lone = camera(h, w, full)
    mates = [np.array(other.DSNU, float), np.array(lone.DSNU, float)]
    cur = np.array(cam.DSNU, float)
    ctx.eq('shape', cur.shape, (h, w))
    dark = Camera.grab(cam, 0.)
    for j, (n, value) in enumerate(steps):
        ctx.step()
        with draws(draw + j, draw >= 0) as d:
            args = (cam, n) if value == 'default' else (cam, n, value)
            if n > pix:
                ctx.raises('more defects than pixels', ValueError, bad_pixel,
                           *args)
                ctx.eq('unchanged', np.array(cam.DSNU, float), cur)
                continue
            r = bad_pixel(*args)
        ctx.true('in place', r is None or r is cam)
        v = (1 if value in (None, 'default') else value) * full
        new = np.array(cam.DSNU, float)
        ctx.eq('shape', new.shape, (h, w))
        hit = new != cur
        bad = new == v
        # earlier defects of the same value may be hit again
        ctx.true('at most n pixels change', hit.sum() <= n, n, new, cur)
        ctx.true('changed pixels have the value', np.all(bad[hit]), new, v)
        if not np.any(cur == v):
            ctx.eq('exactly n defects', int(bad.sum()), n)
        else:
            ctx.true('at least n defects', bad.sum() >= n)
        if draw >= 0 and d.used == 1 and n < pix and not (cur == v).any():
            sub = combination(pix, n, draw + j)
            ctx.eq('positions as drawn', sorted(np.flatnonzero(bad)),
                   sorted(sub))
        img = Camera.grab(cam, 0.)
        want = np.clip(np.rint(.25 * np.clip(np.maximum(
            2. + new, 0) , 0, full)) + 8, 0, 4095)
        ctx.true('visible in the image', np.all(np.abs(
            np.asarray(img, float) - want) <= 1), img, want)
        ctx.eq('other pixels keep their value', np.asarray(img)[new == cur],
               np.asarray(dark)[new == cur])
        cur, dark = new, img
    ctx.eq('other camera', np.array(other.DSNU, float), mates[0])
    ctx.eq('camera without pattern', np.array(lone.DSNU, float), mates[1])
    ctx.eq("the caller's array", own, keep)
    ctx.eq('new cameras', np.array(camera(h, w, full).DSNU, float), mates[1])
    ctx.state(case)
    ctx.outcome(cur)


def spaces(tier):
    deep = tier == 'thorough'
    shapes = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)]
    if deep:
        shapes += [(3, 3), (2, 5), (4, 3)]
    values = ['default', None, 1, 1., .5, .1, 0, 0.]
    one, two = [], []
    for h, w in shapes:
        for n in range(h * w + 3):
            m = min(64, math.comb(h * w, n)) if n <= h * w else 1
            for k in list(range(m + (m % 2))) + [-1, -2, -3]:
                one.append((h, w, [(n, 'default')], 'own', 1000., k))
                if k < 2:
                    for v in values[1:]:
                        for pre in ('own', 'list', None):
                            for full in (1000., 15000., 20, 60000):
                                one.append((h, w, [(n, v)], pre, full, k))
    al = [(0, 1.), (1, None), (1, .5), (2, .5), (3, .1), (4, 1), (5, 0)]
    for L in (2, 3) if deep else (2,):
        for s in itertools.product(al, repeat=L):
            for k in (0, 1, 5, -1, -7):
                two.append((2, 2, s, 'own', 1000., k))
                two.append((1, 4, s, None, 1000., k))
    big = [(h, w, [(n, v)], pre, 1000., k)
           for h, w in big_shapes(deep, (1, 4), ((40, 33), (130, 257)))
           for n in sorted({1, 2, min(h * w, 1000), min(h * w, 1500), h * w}) for k in (0, 1, -1, -2)
           for v, pre in (('default', 'own'), (.5, None))]
    return [Space('sensor sizes', big, run,
                  bound='sizes around powers of two up to %d' % (
                      4097 if deep else 1025)),
            Space('one injection', one, run, bound='all positions of up to '
                  '%d pixels (at most 64 answers each)'
                  % max(a * b for a, b in shapes)),
            Space('sequences', two, run, bound='up to %d injections'
                  % (3 if deep else 2))]
