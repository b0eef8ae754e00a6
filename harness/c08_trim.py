"""C08: trimming to a mask keeps every unmasked element in the smallest window."""
import numpy as np
from ocgis import Dimension, Field, Variable, vm
from ocgis.exc import AllElementsMaskedError, EmptySubsetError
from ocgis.util.helpers import get_trimmed_array_by_mask
from ocgis.variable.dimension import create_distributed_dimension
from ocgis.variable.geom import get_masking_slice
from symex import ranks

from .common import nested

FUNCTIONS = ['ocgis.util.helpers.get_trimmed_array_by_mask', 'ocgis.variable.geom.get_masking_slice', 'ocgis.variable.base.Variable.get_distributed_slice',
             'Variable.__getitem__']
BOUNDS = 'every mask of up to 4x4 elements (thorough 5x5) for arrays; every mask of up to 3x3 elements on one worker and of up to 6 elements on two or three ' \
         'workers (thorough more), any values'
ASSUMPTIONS = ['workers are simulated in one process (symex/ranks.py)']


def window(S, mask, shape, axis):
    """First and last row (column) with an unmasked element, as (is first, is last) conditions per position."""
    n = shape[axis]
    row = []
    for i in range(n):
        cells = [S.not_(mask[(i, j) if axis == 0 else (j, i)] if len(shape) == 2 else mask[i]) for j in range(shape[1 - axis] if len(shape) == 2 else 1)]
        row.append(S.any_(cells))
    return row


def is_window(S, row, start, stop):
    """start:stop is the smallest range with all hits."""
    out = [S.not_(r) for i, r in enumerate(row) if i < start or i >= stop]
    return S.and_(S.all_(out) if out else True, row[start], row[stop - 1])


def trimmed(S, shape, kind, adjust=True):
    """The function on arrays."""
    m = S.bools('m', shape)
    if kind == 'masked':
        cm = np.array(S.mask('k', shape)).reshape(shape)
        m = cm
        data = S.reals('v', shape)
        arr = np.ma.array(data, mask=cm)
    else:
        arr = m
    try:
        r = get_trimmed_array_by_mask(arr, return_adjustments=adjust)
    except AllElementsMaskedError:
        S.check(S.all_([m[i] for i in np.ndindex(*shape)]), 'everything is masked')
        return
    S.check(S.not_(S.all_([m[i] for i in np.ndindex(*shape)])), 'something is unmasked')
    if adjust:
        r, slc = r
        S.check(len(slc) == len(shape), 'one slice per dimension')
        for axis, s in enumerate(slc):
            S.check(0 <= s.start < s.stop <= shape[axis], 'slice inside of the array')
            S.check(is_window(S, window(S, m, shape, axis), s.start, s.stop), 'smallest window')
        S.check(r.shape == tuple(s.stop - s.start for s in slc), 'shape')
        for i in np.ndindex(*r.shape):
            j = tuple(a + s.start for a, s in zip(i, slc))
            if kind == 'masked':
                S.check(bool(r.mask[i]) == bool(cm[j]), 'mask in the window')
                S.check(S.eq(r.data[i], data[j]), 'data in the window')
            else:
                S.check(S.iff(r[i], m[j]), 'mask in the window')
    else:
        count = S.count([S.not_(r.mask[i] if kind == 'masked' else r[i]) for i in np.ndindex(*r.shape)])
        S.check(S.eq(count, S.count([S.not_(m[i]) for i in np.ndindex(*shape)])), 'number of unmasked elements')


def slicing(S, sizes, ny=1, ndim=2, apply_slice=True, data_mask=False, values=True):
    """The distributed variable is sliced to the window of the masks of all workers."""
    P, total = len(sizes), sum(sizes)
    shape = (ny, total) if ndim == 2 else (total,)
    m = S.bools('m', shape)
    # Masks of variables are plain values.
    data = S.reals('v', shape)
    dm = np.array(S.mask('dm', shape)).reshape(shape) if data_mask else None
    ref = nested(data)
    dist = P > 1

    def f(rank):
        lo = sum(sizes[:rank])
        hi = lo + sizes[rank]
        dx = create_distributed_dimension(sizes[rank], name='x') if dist else Dimension('x', total)
        dims = [Dimension('y', ny), dx][2 - ndim:]
        if hi == lo:
            target = Variable(name='t', dimensions=dims, is_empty=True)
        else:
            target = Variable(name='t', value=data[..., lo:hi], dimensions=dims, parent=Field(), mask=None if dm is None else dm[..., lo:hi])
            target.parent.add_variable(Variable(name='other', value=S.array([float(i) for i in range(lo, hi)], 'f'), dimensions=[dx]))
        with vm.scoped_by_emptyable('target', target):
            if vm.is_null:
                return None
            try:
                ret, ret_mask, slc = get_masking_slice(m[..., lo:hi].copy(), target, apply_slice=apply_slice)
            except EmptySubsetError:
                return 'empty'
            return target, ret, ret_mask, slc

    res = ranks.values(ranks.run(P, f)) if dist else [f(0)]
    live = [r for r in range(P) if sizes[r]]
    everything = S.all_([m[i] for i in np.ndindex(*shape)])
    if any(isinstance(res[r], str) for r in live):
        S.check(all(isinstance(res[r], str) for r in live), 'reported empty by every worker')
        S.check(everything, 'reported empty')
        return
    S.check(S.not_(everything), 'something is unmasked')
    slices = {tuple((int(s.start), int(s.stop)) for s in res[r][3]) for r in live}
    S.check(len(slices) == 1, 'the same window on every worker')
    slc = slices.pop()
    S.check(len(slc) == ndim, 'one slice per dimension')
    for axis, (a, b) in enumerate(slc):
        S.check(0 <= a < b <= shape[axis], 'window inside of the global shape')
        S.check(is_window(S, window(S, m, shape, axis), a, b), 'smallest window')
    a, b = slc[-1]
    ya, yb = slc[0] if ndim == 2 else (0, 1)
    for r in live:
        target, ret, ret_mask, _ = res[r]
        lo = sum(sizes[:r])
        S.check(target.shape == shape[:-1] + (sizes[r],), 'original unchanged')
        sel = [i for i in range(lo, lo + sizes[r]) if not apply_slice or a <= i < b]
        ysel = range(ya, yb) if apply_slice else range(ny)
        if not sel:
            S.check(ret.is_empty and ret_mask.is_empty, 'empty outside of the window')
            continue
        S.check(not ret.is_empty and ret.shape == ret_mask.shape == ((len(ysel),) if ndim == 2 else ()) + (len(sel),), 'shape')
        for i, yi in enumerate(ysel):
            for j, xj in enumerate(sel):
                at, src = ((i, j), (yi, xj)) if ndim == 2 else ((j,), (xj,))
                S.check(S.iff(ret_mask.get_value()[at], m[src]), 'mask in the window')
                S.check(S.eq(ret.get_value()[at], data[src]), 'data in the window')
                if data_mask:
                    S.check(bool(ret.get_mask()[at]) == bool(dm[src]), 'existing mask')
        o = ret.parent['other'].get_value()
        S.check([float(k) for k in o] == [float(k) for k in sel], 'other variables')
        if dist and apply_slice:
            d = ret.dimensions[-1]
            S.check(tuple(d.bounds_local) == (sel[0] - a, sel[-1] + 1 - a) and tuple(d.bounds_global) == (0, b - a), 'bounds')


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    for shape in ((1,), (3,), (5,), (1, 1), (1, 4), (3, 2), (3, 3), (4, 4)) + (((9,), (5, 5)) if deep else ()):
        out.append((trimmed, {'shape': shape, 'kind': 'bool'}))
        out.append((trimmed, {'shape': shape, 'kind': 'bool', 'adjust': False}))
    for shape in ((3,), (2, 3)):
        out.append((trimmed, {'shape': shape, 'kind': 'masked'}))
    for ny, sizes in ((1, (4,)), (3, (1,)), (2, (2,)), (3, (3,)), (1, (2, 2)), (2, (1, 2)), (1, (1, 2, 1)), (2, (1, 0, 2))) + \
            (((2, (2, 2)), (3, (2, 1)), (2, (1, 2, 1)), (1, (2, 1, 2, 1))) if deep else ()):
        out.append((slicing, {'sizes': sizes, 'ny': ny}))
    out.append((slicing, {'sizes': (1, 2), 'ny': 2, 'apply_slice': False}))
    out.append((slicing, {'sizes': (3,), 'ny': 2, 'apply_slice': False}))
    for sizes in ((3,), (1, 2), (2, 0, 1), (1, 1, 2)):
        out.append((slicing, {'sizes': sizes, 'ndim': 1}))
    out.append((slicing, {'sizes': (1, 1), 'ny': 1, 'data_mask': True}))
    out.append((slicing, {'sizes': (2,), 'ny': 1, 'data_mask': True}))
    return out
