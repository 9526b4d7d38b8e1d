"""The reference model: EMVA 1288 written down boringly.

Everything works on raw stacks (lists of equally shaped integer arrays) in
exact rational arithmetic where that is affordable.  Nothing here imports
the code under test.
"""
from fractions import Fraction as F
import math

import numpy as np


def reduce_stack(stack):
    """what the loader gives for a spatial series (exact)"""
    L = len(stack)
    st = [np.asarray(i).astype(object) for i in stack]
    s = sum(st)
    pv = L * (L * sum(i * i for i in st) - s * s)
    n = st[0].size
    return {'L': L, 'sum': s.astype(np.int64), 'pvar': pv.astype(np.int64),
            'dmean': float(F(int(st[-1].sum()) - int(st[0].sum()), n))}


def reduce_pair(stack):
    """what the loader gives for a temporal series"""
    d = reduce_stack(stack)
    return {'sum': int(d['sum'].sum()), 'pvar': int(d['pvar'].sum()),
            'dmean': d['dmean']}


def temporal_point(a, b):
    """(mean, variance) of an image pair, exact"""
    a = [int(v) for v in np.ravel(a)]
    b = [int(v) for v in np.ravel(b)]
    n = len(a)
    ma, mb = F(sum(a), n), F(sum(b), n)
    mean = (ma + mb) / 2
    var = F(sum((x - y) ** 2 for x, y in zip(a, b)), 2 * n) \
        - (ma - mb) ** 2 / 2
    return mean, var


def spatial_stats(stack):
    """exact spatial statistics of a stack -> dict of Fractions"""
    L = len(stack)
    M, N = stack[0].shape
    px = [[[int(i[m, n]) for i in stack] for n in range(N)]
          for m in range(M)]
    avg = [[F(sum(px[m][n]), L) for n in range(N)] for m in range(M)]
    mean = sum(map(sum, avg)) / (M * N)
    var = sum((v - mean) ** 2 for r in avg for v in r)
    var = var / (M * N - 1)
    st = F(0)
    for m in range(M):
        for n in range(N):
            st += sum((v - avg[m][n]) ** 2 for v in px[m][n]) / (L - 1)
    st /= M * N
    cols = [sum(avg[m][n] for m in range(M)) / M for n in range(N)]
    rows = [sum(avg[m]) / N for m in range(M)]
    cav = sum((c - mean) ** 2 for c in cols) / N - st / (L * M)
    rav = sum((r - mean) ** 2 for r in rows) / M - st / (L * N)
    return {'L': L, 'M': M, 'N': N, 'avg_mean': mean, 'avg_var': var,
            'var_mean': st, 'avg_var_cav': cav, 'avg_var_rav': rav}


# ------------------------------------------------------------ results
def fit0(x, y):
    """slope of the least squares line through the origin"""
    return math.fsum(a * b for a, b in zip(x, y)) / \
        math.fsum(a * a for a in x)


def fit1(x, y):
    """(slope, offset) of the least squares line, exact inside"""
    X = [F(float(v)) for v in x]
    Y = [F(float(v)) for v in y]
    n = len(X)
    sx, sy = sum(X), sum(Y)
    sxx = sum(v * v for v in X)
    sxy = sum(a * b for a, b in zip(X, Y))
    d = n * sxx - sx * sx
    m = (n * sxy - sx * sy) / d
    return float(m), float((sy - m * sx) / n)


def saturation_index(s2):
    """scan from the brightest point down"""
    last, idx = 0, 0
    for i in reversed(range(len(s2))):
        here = s2[i] >= last
        darker = i > 0 and s2[i - 1] >= last
        if not (here or darker):
            break
        last, idx = s2[i], i
    return idx


def ranges(t, sat):
    """(sensitivity max, linearity min, linearity max) or None entries"""
    Y = np.asarray(t['u_y'], float) - np.asarray(t['u_ydark'], float)
    ys = Y[sat]

    def last(c):
        i = [k for k, v in enumerate(c) if v]
        return i[-1] if i else None

    def first(c):
        i = [k for k, v in enumerate(c) if v]
        return i[0] if i else None
    return (last(Y <= 0.7 * ys), first(Y >= 0.05 * ys),
            last(Y <= 0.95 * ys))


def linearity(t, imin, imax):
    Y = [F(float(a)) - F(float(b)) for a, b in zip(t['u_y'], t['u_ydark'])]
    X = [F(float(v)) for v in t['u_p']]
    xs, ys = X[imin:imax + 1], Y[imin:imax + 1]
    # weighted least squares with weights 1/y^2
    w = [1 / (v * v) for v in ys]
    S = sum(w)
    Sx = sum(a * b for a, b in zip(w, xs))
    Sy = sum(a * b for a, b in zip(w, ys))
    Sxx = sum(a * b * b for a, b in zip(w, xs))
    Sxy = sum(a * b * c for a, b, c in zip(w, xs, ys))
    d = S * Sxx - Sx * Sx
    a = (S * Sxy - Sx * Sy) / d
    b = (Sy - a * Sx) / S
    dev = [float(100 * (y - (a * x + b)) / (a * x + b))
           if a * x + b else float('nan') for x, y in zip(X, Y)]
    return {'fit_slope': float(a), 'fit_offset': float(b),
            'relative_deviation': np.array(dev),
            'linearity_error_min': min(dev[imin:imax + 1]),
            'linearity_error_max': max(dev[imin:imax + 1])}


def sqrt_or_nan(v):
    return math.sqrt(v) if v >= 0 else float('nan')


def sensitivity(t, sat, area=None):
    """the sensitivity section from temporal data and saturation index"""
    smax, lmin, lmax = ranges(t, sat)
    Y = np.asarray(t['u_y'], float) - np.asarray(t['u_ydark'], float)
    V = np.asarray(t['s2_y'], float) - np.asarray(t['s2_ydark'], float)
    P = np.asarray(t['u_p'], float)
    r = {}
    r['R'] = fit0(P[:smax + 1], Y[:smax + 1])
    r['K'] = K = fit0(Y[:smax + 1], V[:smax + 1])
    r['inverse_K'] = 1 / K
    r['QE'] = QE = 100 * r['R'] / K
    if len(set(float(x) for x in t['texp'])) >= 3:
        s2 = fit1(t['texp'], t['s2_ydark'])[1]
    else:
        s2 = float(t['s2_ydark'][0])
    s2 = max(s2, 0.24)
    r['sigma_y_dark'] = sy = math.sqrt(s2)
    r['sigma_d'] = math.sqrt(s2 - 1 / 12) / K
    r['u_p_min'] = 100 / QE * (sy / K + 0.5)
    r['u_e_min'] = sy / K + 0.5
    r['u_p_sat'] = float(P[sat])
    r['u_e_sat'] = ue = QE / 100 * P[sat]
    r['SNR_max'] = math.sqrt(ue) if ue >= 0 else float('nan')
    r['SNR_max_dB'] = 10 * math.log10(ue) if ue > 0 else float('nan')
    r['SNR_max_bit'] = math.log2(ue) / 2 if ue > 0 else float('nan')
    r['inverse_SNR_max'] = 100 / r['SNR_max'] if ue > 0 else float('nan')
    r['DR'] = P[sat] / r['u_p_min']
    r['DR_dB'] = 20 * math.log10(r['DR']) if r['DR'] > 0 else float('nan')
    for k in ('u_p_min', 'u_e_min', 'u_p_sat', 'u_e_sat'):
        r[k + '_area'] = r[k] / area if area else None
    return r


def dark_current(t, K):
    nan = float('nan')
    if len(set(float(x) for x in t['texp'])) < 3:
        return {'u_I_mean_DN': nan, 'u_I_mean': nan, 'u_I_var_DN': nan,
                'u_I_var': nan}
    m = fit1(t['texp'], t['u_ydark'])[0] * 1e9
    v = fit1(t['texp'], t['s2_ydark'])[0] * 1e9
    r = {'u_I_mean_DN': m, 'u_I_mean': m / K}
    r['u_I_var_DN'] = v / K if v >= 0 else nan
    r['u_I_var'] = v / K / K if v >= 0 else nan
    return r


def nonuniformity(b, d, K):
    """b, d: spatial_stats of bright and dark stack"""
    r = {}
    parts = {}
    for post, s in (('', b), ('_dark', d)):
        M, N = s['M'], s['N']
        r['sigma_2_y_stack' + post] = s['var_mean']
        r['s_2_y_measured' + post] = s['avg_var']
        tot = s['avg_var'] - s['var_mean'] / s['L']
        r['s_2_y' + post] = tot
        r['s_2_y_cav' + post] = s['avg_var_cav']
        r['s_2_y_rav' + post] = s['avg_var_rav']
        den = M * N - M - N
        # solves  tot = row + col + pix,
        #         cav = col + pix / M ,  rav = row + pix / N
        pix = (tot - s['avg_var_cav'] - s['avg_var_rav']) / \
            (1 - F(1, M) - F(1, N)) if den else None
        parts['pixel' + post] = pix
        parts['col' + post] = s['avg_var_cav'] - pix / M if den else None
        parts['row' + post] = s['avg_var_rav'] - pix / N if den else None
        parts['total' + post] = tot
        for k in ('pixel', 'col', 'row'):
            r['s_2_y_%s%s' % (k, post)] = parts[k + post]
    dm = b['avg_mean'] - d['avg_mean']
    for k, name in (('total', ''), ('row', '_row'), ('col', '_col'),
                    ('pixel', '_pixel')):
        v = parts[k + '_dark']
        if v is None:
            continue
        r['DSNU1288' + name] = sqrt_or_nan(float(v)) / K
        if not name:
            r['DSNU1288_DN'] = sqrt_or_nan(float(v))
        x = float(parts[k] - v)
        r['PRNU1288' + name] = 100 * sqrt_or_nan(x) / float(dm) \
            if dm else float('nan')
    return {k: v if v is None else float(v) for k, v in r.items()}
