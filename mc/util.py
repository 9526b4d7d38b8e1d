"""Shared enumeration helpers and boring reference functions."""
import itertools

import numpy as np


def all_arrays(shape, alphabet):
    """every array of this shape over the alphabet, as flat lists"""
    n = int(np.prod(shape))
    return itertools.product(alphabet, repeat=n)


def frozen(a):
    """copy used to check that an input was not modified"""
    if isinstance(a, np.ma.MaskedArray):
        return a.copy()
    return np.array(a, copy=True)


def bits(n, k):
    return [(n >> i) & 1 for i in range(k)]


def product_dicts(**axes):
    keys = list(axes)
    for vals in itertools.product(*[axes[k] for k in keys]):
        yield dict(zip(keys, vals))


def deviations(default, axes, depth):
    """all assignments that differ from `default` in at most `depth` keys.

    Ordered by the number of deviations (iterated deviation bounding).
    """
    keys = list(axes)
    for n in range(depth + 1):
        for sub in itertools.combinations(keys, n):
            alts = [[v for v in axes[k] if v != default[k]] for k in sub]
            for vals in itertools.product(*alts):
                d = dict(default)
                d.update(zip(sub, vals))
                yield d


EDGES = (63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000,
         1023, 1024, 1025)
DEEP_EDGES = EDGES + (2047, 2048, 2049, 4095, 4096, 4097)


def big_shapes(deep, small=(5, 7), square=((130, 257), (520, 300))):
    """shapes around the usual block and type limits, in both directions"""
    out = []
    for n in DEEP_EDGES if deep else EDGES:
        for k in small:
            out += [(n, k), (k, n)]
    return out + list(square) + ([(1030, 1100)] if deep else [])


def texture(h, w, seed=0, top=1021):
    """an image without symmetries or repetition of rows and columns"""
    y, x = np.mgrid[:h, :w].astype(np.int64)
    return (y * 7919 + x * 104729 + (y + 3) * (x + 5) * (y % 7 + 1) * 31 +
            seed * 1299709) % top


LAYOUTS = ('fortran', 'strided', 'reversed', 'transposed', 'readonly',
           'sliced', 'swapped')


def laid_out(a, how):
    """the same values in another memory layout (masked arrays too)"""
    if isinstance(a, np.ma.MaskedArray):
        return np.ma.array(laid_out(np.ma.getdata(a), how),
                           mask=laid_out(np.ma.getmaskarray(a),
                                         how if how != 'readonly' else 'c'))
    if how == 'fortran':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.zeros((a.shape[0] * 2, a.shape[1] * 3), a.dtype)
        b[::2, ::3] = a
        return b[::2, ::3]
    if how == 'reversed':
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    if how == 'transposed':
        return np.ascontiguousarray(a.T).T
    if how == 'readonly':
        a = a.copy()
        a.setflags(write=False)
        return a
    if how == 'sliced':
        b = np.zeros((a.shape[0] + 2, a.shape[1] + 3), a.dtype)
        b[1:-1, 2:-1] = a
        return b[1:-1, 2:-1]
    if how == 'swapped':
        return a.astype(a.dtype.newbyteorder('S'))
    return np.ascontiguousarray(a)
