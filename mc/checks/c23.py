"""C23: same seed, same images"""
import hashlib
import itertools
import json
import os
import random
import subprocess
import sys
import numpy as np
from ..core import Space
from ..util import big_shapes, deviations
from .. import env
from .c21 import qe_of, pattern, light
from .. import sim
from emva1288.camera import Camera
from emva1288.camera import routines
from emva1288.camera.bad_images import bad_pixel
from emva1288.camera.dataset_generator import DatasetGenerator
from emva1288.camera.points_generator import PointsGenerator

ID = 'C23'
TECH = ('stateless exploration of every interleaving of a camera script with '
        'intruding operations, and of every seed pair and generator '
        'configuration, on the real code with the real generator')
RULE = ('every interleaving of an operation script of one camera with '
        'intruder operations (other cameras, global random state, dataset '
        'generation, defect injection elsewhere); every ordered pair of '
        'seeds; every dataset configuration within a number of deviations, '
        'generated twice in different surroundings and file by file equal')
ASSUME = ['images of at least 20 x 20 pixels with noise do not coincide by '
          'chance']


def new(seed, kind=0, shape=(20, 20)):
    h, w = shape
    par = [dict(), dict(bit_depth=12, K=1., blackoffset=20,
                        dark_current_ref=1000, temperature=30),
           dict(bit_depth=16, K=17., sigma2_dark_0=100.)][kind]
    q = qe_of('three' if kind else 'mono', h, w)
    return Camera(width=w, height=h, seed=seed, qe=q,
                  dsnu=pattern('mixed', h, w, False) if kind == 2 else None,
                  prnu=pattern('mixed', h, w, True) if kind == 2 else None,
                  **par)


def run_sizes(case, ctx):
    """larger sensors: repeated, and different for another seed"""
    kind, shape, n = case
    a = new(7, kind, shape)
    first = [a.grab(rad(a)) if k % 2 else a.grab(0) for k in range(n)]
    oth = Others()
    b, c = new(7, kind, shape), new(8, kind, shape)
    for k, img in enumerate(first):
        ctx.step()
        if k == 1:
            oth.do('np seed', ctx.tmp)
            oth.do('same seed camera', ctx.tmp)
        again, other = [x.grab(rad(x)) if k % 2 else x.grab(0)
                        for x in (b, c)]
        ctx.true('image %d of the same seed' % k,
                 np.array_equal(again, img))
        ctx.true('image %d of another seed' % k,
                 not np.array_equal(other, img))
        ctx.true('image %d is new' % k,
                 not any(np.array_equal(img, f) for f in first[:k]))
    # the noise of one part of the sensor is not that of another
    img = first[-1].astype(int)
    h, w = shape
    for axis, m in ((0, h), (1, w)):
        for s in (1, 16, 32, 64, 100, 128, 256, 512, m // 2):
            if s < m and h * w / m * (m - s) >= 100:
                p = np.take(img, range(m - s), axis)
                q = np.take(img, range(s, m), axis)
                ctx.true('noise repeats after %d' % s,
                         not np.array_equal(p, q))
    ctx.state(case)
    ctx.outcome(digest(first))


def rad(cam, n=300):
    m = sim.Model(dict(width=cam.width, height=cam.height), cam.qe.w,
                  cam.qe.qe)
    return light(n, m)


def own(cam, op):
    """an operation of the observed camera; returns its images"""
    if op == 'dark':
        return [cam.grab(0)]
    if op == 'bright':
        return [cam.grab(rad(cam))]
    if op == 'warm':
        return [cam.grab(rad(cam), temperature=50)]
    if op == 'K':
        cam.K = 3.
        return []
    if op == 'exposure':
        cam.exposure = 2.5e6
        return []
    if op == 'black':
        cam.blackoffset = 9
        return []
    if op == 'radiance':
        return [cam.get_radiance_for(mean=100)]
    if op == 'points':
        p = PointsGenerator(cam, exposure_fixed=2e6, steps=3)
        return [np.asarray(r) for r in
                p.points['temporal'][list(p.points['temporal'])[0]]]
    raise ValueError(op)


class Others(object):
    def __init__(self):
        self.cams = {}

    def cam(self, name, *a):
        if name not in self.cams:
            self.cams[name] = new(*a)
        return self.cams[name]

    def do(self, op, tmp):
        if op == 'same seed camera':
            self.cam('twin', 7).grab(0)
        elif op == 'other camera':
            self.cam('other', 8, 1).grab(0)
        elif op == 'unseeded camera':
            self.cam('none', None).grab(0)
        elif op == 'np seed':
            np.random.seed(7)
        elif op == 'np draw':
            np.random.normal(size=3)
            np.random.poisson(5, 4)
        elif op == 'random':
            random.seed(7)
            random.random()
        elif op == 'np new generator':
            np.random.default_rng(7).normal(size=5)
        elif op == 'bad pixels':
            bad_pixel(self.cam('bad', 7), 3)
        elif op == 'dataset':
            DatasetGenerator(steps=2, L=3, width=4, height=4, seed=7, K=1.,
                             blackoffset=4)
        elif op == 'load sample':
            routines.Qe(width=3, height=2)
        else:
            raise ValueError(op)


def digest(imgs):
    return [(str(i.dtype), list(i.shape),
             hashlib.sha256(np.ascontiguousarray(i).tobytes()).hexdigest())
            for i in map(np.asarray, imgs)]


def run_interleave(case, ctx):
    """case: seed, kind, own ops, list of (position, intruder)"""
    seed, kind, ops, intr = case
    np.random.seed(1)
    a = new(seed, kind)
    want = []
    for o in ops:
        want.append(digest(own(a, o)))
    np.random.seed(2)
    random.seed(3)
    oth = Others()
    pend = [tuple(i) for i in intr]
    for p, o in pend:
        if p == -1:
            oth.do(o, ctx.tmp)
    b = new(seed, kind)
    for k, o in enumerate(ops):
        for p, i in pend:
            if p == k:
                oth.do(i, ctx.tmp)
        ctx.step()
        ctx.eq('operation %d (%s)' % (k, o), digest(own(b, o)), want[k])
        ctx.state(kind, seed, ops[:k + 1], [x for x in intr if x[0] <= k])
    ctx.outcome(want)


def run_two(case, ctx):
    """two equal cameras in lock step: every schedule gives both the same"""
    seed, kind, ops, sched = case
    cams = [new(seed, kind), new(seed, kind)]
    pos = [0, 0]
    out = [[], []]
    for who in sched:
        ctx.step()
        out[who] += digest(own(cams[who], ops[pos[who]]))
        pos[who] += 1
        ctx.state(case[:2], pos)
    ctx.eq('both cameras', out[0], out[1])
    ctx.outcome(out)


def run_seeds(case, ctx):
    s1, s2, kind = case
    ctx.step()
    a, b = new(s1, kind), new(s2, kind)
    for op in ('dark', 'bright', 'dark'):
        x, y = own(a, op)[0], own(b, op)[0]
        same = bool(np.array_equal(x, y))
        ctx.true('seeds %r and %r: %s images %s' % (
            s1, s2, op, 'differ' if s1 == s2 else 'are the same'),
            same == (s1 == s2))
    # the noise is new in every image
    ctx.true('consecutive images differ',
             not np.array_equal(own(a, 'bright')[0], own(a, 'bright')[0]))
    ctx.state(case)


def listing(d):
    out = {}
    for root, _dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, d)] = hashlib.sha256(
                    h.read()).hexdigest()
    return out


DEF = {'steps': 3, 'L': 3, 'image_format': 'png', 'seed': 5, 'width': 6,
       'height': 5, 'bit_depth': 8, 'K': 1., 'blackoffset': 5,
       'exposure_fixed': None, 'version': '4.0', 'temperature': 22}
DAX = {'steps': (2, 3, 4), 'L': (3, 4), 'image_format': ('png', 'tiff'),
       'seed': (0, 1, 5, 2 ** 32 + 1), 'bit_depth': (8, 12, 16),
       'K': (1., 'auto'), 'blackoffset': (5, 'auto'),
       'exposure_fixed': (None, 2e6), 'width': (6, 1), 'version': ('4.0',
                                                                   '3.1'),
       'temperature': (22, 45)}


def gen(c, out):
    k = {a: b for a, b in c.items() if b != 'auto'}
    k['qe'] = qe_of('three', c['height'], c['width'])
    return DatasetGenerator(outdir=out, **k)


def run_dataset(case, ctx):
    ctx.step()
    np.random.seed(1)
    a, b, t = [os.path.join(ctx.tmp, n) for n in 'abt']
    gen(case, a)
    oth = Others()
    for o in ('np seed', 'same seed camera', 'random', 'np draw'):
        oth.do(o, ctx.tmp)
    gen(case, b)
    la, lb = listing(a), listing(b)
    ctx.eq('files', sorted(la), sorted(lb))
    ctx.eq('contents', la, lb)
    ctx.true('not empty', len(la) > 5)
    k = {x: y for x, y in case.items() if y != 'auto'}
    k['qe'] = qe_of('three', case['height'], case['width'])
    tmp = DatasetGenerator(**k)
    ctx.eq('temporary dataset', listing(tmp.outdir), la)
    d = dict(case, seed=case['seed'] + 1)
    gen(d, t)
    lt = listing(t)
    ctx.eq('files for another seed', sorted(lt), sorted(la))
    if case['width'] > 1:
        ctx.true('another seed, other images', lt != la)
    ctx.state(case)
    ctx.outcome(la)


CODE = '''
import sys, json
sys.path.insert(0, %r)
from mc import env
from mc.checks import c23
case = json.loads(%r)
print(json.dumps([c23.digest(c23.own(cam, o)) for cam in
      [c23.new(case[0], case[1])] for o in case[2]]))
'''


def run_process(case, ctx):
    """another process with another hash seed gives the same images"""
    cam = new(case[0], case[1])
    want = json.loads(json.dumps([digest(own(cam, o)) for o in case[2]]))
    for hs in ('1', '2'):
        ctx.step()
        e = dict(os.environ, PYTHONHASHSEED=hs)
        root = os.path.dirname(os.path.dirname(os.path.dirname(
            os.path.abspath(__file__))))
        r = subprocess.run([sys.executable, '-c',
                            CODE % (root, json.dumps(case))], env=e,
                           stdout=subprocess.PIPE, timeout=100)
        ctx.eq('other process', json.loads(r.stdout.decode()), want)
    ctx.state(case)


def spaces(tier):
    deep = tier == 'thorough'
    ownops = ('dark', 'bright', 'warm', 'K', 'exposure', 'points')
    intr = ('same seed camera', 'other camera', 'unseeded camera', 'np seed',
            'np draw', 'random', 'np new generator', 'bad pixels', 'dataset',
            'load sample')
    inter = []
    for a, b in itertools.product(ownops, repeat=2):
        ops = (a, 'bright', b, 'dark')
        for pos in (-1, 0, 1, 2, 3):
            for i in intr:
                if i == 'dataset' and not deep and (a, b) != ('dark', 'K'):
                    continue
                inter.append((7, 1 if deep and pos == 2 else 0, ops,
                              ((pos, i),)))
    for i, j in itertools.product(intr, repeat=2):
        if 'dataset' in (i, j) and not deep:
            continue
        for p in (-1, 0, 1):
            for q in range(p, 3):
                inter.append((7, 2 if p == 1 else 0,
                              ('dark', 'bright', 'dark'),
                              ((p, i), (q, j))))
    two = []
    for ops in (('dark', 'bright', 'warm'), ('bright', 'K', 'dark'),
                ('points', 'dark', 'bright')) + \
            ((('dark', 'exposure', 'bright', 'warm'),) if deep else ()):
        n = len(ops)
        for s in itertools.product((0, 1), repeat=2 * n):
            if sum(s) == n:
                for kind in (0, 1, 2):
                    two.append((0 if kind else 11, kind, ops, s))
    al = (0, 1, 2, 7, 42, 2 ** 31, 2 ** 32, 2 ** 63)
    seeds = [(a, b, k) for a in al for b in al
             for k in ((0, 1, 2) if deep else (0, 2))]
    data = list(deviations(DEF, DAX, 3 if deep else 2))
    proc = [(s, k, ('dark', 'bright', 'points', 'dark')) for s in (0, 7)
            for k in (0, 1, 2)]
    sizes = [(k, s, 4) for k in (0, 1, 2)
             for s in big_shapes(deep, (5, 7), ((130, 257), (260, 257))) + (
                 [(520, 300), (1025, 1030)] if deep else [])] + \
        [(k, (20, 20), n) for k in (0, 1, 2)
         for n in ((70, 140) if deep else (70,))]
    return [Space('sensor sizes', sizes, run_sizes,
                  bound='sizes around the powers of two; 70 images'),
            Space('interleavings', inter, run_interleave,
                  bound='every position of every intruder and pair of '
                  'intruders'),
            Space('two equal cameras', two, run_two,
                  bound='all schedules of two scripts of up to %d '
                  'operations' % (4 if deep else 3)),
            Space('seeds', seeds, run_seeds, bound='8 x 8 seeds'),
            Space('datasets', data, run_dataset,
                  bound='up to %d deviations, 11 axes' % (3 if deep else 2)),
            Space('processes', proc if deep else proc[::3], run_process,
                  bound='two hash seeds')]
