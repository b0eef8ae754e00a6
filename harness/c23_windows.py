"""C23: moving windows and convolutions see exactly their window."""
import numpy as np
from ocgis.calc.library.math import Convolve1D
from ocgis.calc.library.statistics import MovingWindow

from .c19_statistics import check_value
from .calc_common import make_field, unchanged

FUNCTIONS = ['ocgis.calc.library.statistics.MovingWindow.calculate', 'MovingWindow._iter_kernel_values_',
             'ocgis.calc.library.math.Convolve1D.calculate', 'ocgis.calc.base.AbstractUnivariateFunction._execute_',
             'AbstractFunction._iter_conformed_arrays_', 'ocgis.util.broadcaster.broadcast_array_by_dimension_names',
             'AbstractParameterizedFunction._format_parms_']
BOUNDS = 'series of up to 5 steps (thorough 7), windows of 3 and 5, kernels of 1 to 3 values, 1 to 4 cells on several dimension orders; ' \
         'any values and kernels (+-1000); any mask of up to two cells'
OUTSIDE = 'integer data, kernels longer than the series, rounding of floats'


def stats(S, op, got, vals):
    if op == 'var':
        mean = S.sum_(vals) / len(vals)
        S.check(S.eq(got, S.sum_([(v - mean) * (v - mean) for v in vals]) / len(vals)), 'variance')
    else:
        check_value(S, op, got, vals)


def window(S, op, mode, k, nt, dims, masked=0, sizes=None):
    f, ref, rm, _, shape = make_field(S, nt, dims, 1, masked, sizes, months=[1] * nt)
    ax = dims.index('time')
    out = MovingWindow(field=f, alias='out', parms={'k': k, 'mode': mode, 'operation': op}).execute()['out']
    S.check(tuple(out.shape) == shape, 'shape')
    ov, om = out.get_value(), out.get_mask()
    h = k // 2
    for i in np.ndindex(*shape):
        t = i[ax]
        members = [i[:ax] + (j,) + i[ax + 1:] for j in range(max(t - h, 0), min(t + h + 1, nt))]
        vals = [ref[m] for m in members if not rm[m]]
        full = t - h >= 0 and t + h < nt
        S.check((False if om is None else bool(om[i])) == (not vals or (mode == 'valid' and not full)), 'mask')
        if vals and (mode == 'same' or full):
            stats(S, op, ov[i], vals)
    unchanged(S, f, 'data', ref, rm)


def convolve(S, mode, m, nt, dims, masked=0, sizes=None):
    f, ref, rm, _, shape = make_field(S, nt, dims, 1, masked, sizes, months=[1] * nt)
    ax = dims.index('time')
    v = S.reals('v', (m,))
    out = Convolve1D(field=f, alias='out', parms={'v': S.array(list(v), 'f'), 'mode': mode}).execute()['out']
    S.check(tuple(out.shape) == shape, 'shape')
    ov, om = out.get_value(), out.get_mask()
    # The complete convolution is c[n] = sum of a[n - j] * v[j]; 'same' keeps the centred part and 'valid' the part without
    # values beyond the series.
    first = (m - 1) // 2 if mode == 'same' else m - 1
    for i in np.ndindex(*shape):
        n = first + i[ax]
        members = [(j, i[:ax] + (n - j,) + i[ax + 1:]) for j in range(m) if 0 <= n - j < nt]
        masked_here = any(rm[k] for _, k in members) or (mode == 'valid' and i[ax] > nt - m)
        S.check((False if om is None else bool(om[i])) == masked_here, 'mask')
        if not masked_here:
            terms = [ref[k] * v[j] for j, k in members]
            S.check(S.eq(ov[i], S.sum_(terms)), 'convolution')
    unchanged(S, f, 'data', ref, rm)


ORDERS = [('x', 'time'), ('time', 'y', 'x'), ('time', 'level', 'x'), ('realization', 'time', 'x'), ('y', 'x', 'time'), ('other', 'time', 'x')]
OPS = ['mean', 'min', 'max', 'median', 'var', 'std']


def tasks(tier):
    th = tier == 'thorough'
    out = []
    one = {'x': 1}
    for k, op in enumerate(OPS):
        for mode in ('valid', 'same'):
            out.append((window, {'op': op, 'mode': mode, 'k': 3, 'nt': 4 if th else 3, 'dims': ('time', 'x'), 'sizes': one, 'masked': 1}))
            out.append((window, {'op': op, 'mode': mode, 'k': 3, 'nt': 7 if th and op not in ('median', 'std') else 4, 'dims': ('time', 'x'), 'sizes': one}))
            out.append((window, {'op': op, 'mode': mode, 'k': 5, 'nt': 2, 'dims': ('time', 'x')}))
            if op in ('mean', 'min', 'max', 'var'):
                out.append((window, {'op': op, 'mode': mode, 'k': 5, 'nt': 6 if th else 5, 'dims': ('time', 'x'), 'sizes': one}))
            out.append((window, {'op': op, 'mode': mode, 'k': 3, 'nt': 3, 'dims': ORDERS[k % len(ORDERS)], 'sizes': {'x': 1 if k % 2 else 2}, 'masked': 1}))
    for mode in ('valid', 'same'):
        for m in (1, 2, 3):
            for nt in (3, 4, 5) if not th else (3, 4, 5, 6, 7):
                out.append((convolve, {'mode': mode, 'm': m, 'nt': nt, 'dims': ('time', 'x'), 'masked': 1}))
        out.append((convolve, {'mode': mode, 'm': 3, 'nt': 3, 'dims': ('time', 'x'), 'masked': 0}))
        for dims in ORDERS:
            out.append((convolve, {'mode': mode, 'm': 2, 'nt': 3, 'dims': dims, 'masked': 2}))
    return out
