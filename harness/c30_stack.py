"""C30: stacking and assignment place every element where it belongs."""
import numpy as np
from ocgis import Dimension, Field, TemporalVariable, Variable, VariableCollection
from ocgis.variable.base import stack

from .common import conc_index

FUNCTIONS = ['ocgis.variable.base.{stack,Variable.__setitem__,Variable.set_mask,Variable.set_bounds}', 'ocgis.util.helpers.{get_formatted_slice,'
             'get_orthogonal_slice}', 'ocgis.variable.base.get_mapped_slice']
BOUNDS = 'one to three targets with up to 3 elements along the stacked dimension, up to three dimensions, any position of the stacked dimension, any values, masks on any of ' \
         'the sources, with and without bounds; assignments with any integer, slice, step, boolean and integer-array index per dimension (lengths up to 3)'
OUTSIDE = 'sources of different types of data, repeated positions in an index of an assignment, groups of collections'


def content(S, name, shape, mask):
    """Values, mask (or None) with ``mask`` unknown elements, and the reference."""
    v = S.reals(name, shape)
    ref = np.empty(shape, dtype=object)
    rm = np.zeros(shape, dtype=bool)
    m = None if mask is None else np.zeros(shape, dtype=bool)
    for k, i in enumerate(np.ndindex(*shape)):
        ref[i] = v[i]
        if mask is not None and k < mask:
            m[i] = rm[i] = S.cbool('%s.m%d' % (name, k))
    return v, m, ref, rm


def compare(S, var, ref, rm, label):
    value, mask = var.get_value(), var.get_mask()
    S.check(tuple(var.shape) == ref.shape and tuple(value.shape) == ref.shape, label + ' shape')
    S.check(mask is None or mask.shape == ref.shape, label + ' shape of the mask')
    for i in np.ndindex(*ref.shape):
        S.check((mask is not None and bool(mask[i])) == bool(rm[i]), label + ' mask')
        S.check(S.eq(value[i], ref[i]), label + ' value')


def assign(S, shape, kinds, mask=None, other=None, bounds=False, as_dict=False):
    """Assignment to any part of a variable."""
    dims = ['d%d' % i for i in range(len(shape))]
    v, m, ref, rm = content(S, 'v', shape, mask)
    var = Variable('v', value=v, mask=None if m is None else m.copy(), dimensions=dims)
    if bounds:
        b, _, bref, _ = content(S, 'vb', tuple(shape) + (2,), None)
        var.set_bounds(Variable('vb', value=b, dimensions=dims + ['bnds']))
    idx, pos = zip(*[conc_index(S, d, n, kinds=kinds) for d, n in zip(dims, shape)])
    if any(len(set(p)) != len(p) or not p for p in pos):
        S.check(True, 'no or repeated positions')
        return
    oshape = tuple(len(p) for p in pos)
    w, wm, wref, wrm = content(S, 'w', oshape, other)
    src = Variable('w', value=w, mask=None if wm is None else wm.copy(), dimensions=dims)
    if bounds:
        wb, _, wbref, _ = content(S, 'wb', oshape + (2,), None)
        src.set_bounds(Variable('wb', value=wb, dimensions=dims + ['bnds']))
    var[dict(zip(dims, idx)) if as_dict else idx] = src
    at = np.ix_(*pos)
    ref[at], rm[at] = wref, wrm
    compare(S, var, ref, rm, 'assigned')
    compare(S, src, wref, wrm, 'source')
    if bounds:
        bref[at + (slice(None),)] = wbref if False else bref[at + (slice(None),)]
        for i in np.ndindex(*oshape):
            bref[tuple(p[k] for p, k in zip(pos, i))] = wbref[i]
        compare(S, var.bounds, bref, np.repeat(rm[..., None], 2, axis=-1), 'bounds')


def make(S, name, dims, sizes, mask, bounds, klass=Variable, unlimited=None):
    """A variable and its reference (values, mask, bounds)."""
    shape = tuple(sizes[d] for d in dims)
    v, m, ref, rm = content(S, name, shape, mask)
    ds = [Dimension(d, size_current=sizes[d]) if d == unlimited else Dimension(d, sizes[d]) for d in dims]
    var = klass(name='var', value=v, mask=m, dimensions=ds, attrs={'units': 'days since 2001-01-01'}, parent=VariableCollection())
    bref = None
    if bounds:
        b, _, bref, _ = content(S, name + 'b', shape + (2,), None)
        var.set_bounds(Variable('bnds', value=b, dimensions=ds + [Dimension('two', 2)]))
    return var, ref, rm, bref


def variables(S, dims, axis, lengths, other=2, masks=None, bounds=False, unlimited=False, obj=False, klass=Variable):
    """Variables one after the other along a dimension."""
    masks = masks or [None] * len(lengths)
    made = []
    for k, n in enumerate(lengths):
        sizes = {d: n if d == axis else other for d in dims}
        made.append(make(S, 'v%d' % k, dims, sizes, masks[k], bounds, klass, axis if unlimited else None))
    ax = dims.index(axis)
    out = stack([i[0] for i in made], made[0][0].dimensions[ax] if obj else axis)
    ref = np.concatenate([i[1] for i in made], axis=ax)
    rm = np.concatenate([i[2] for i in made], axis=ax)
    compare(S, out, ref, rm, 'stacked')
    S.check(out.name == 'var' and out.attrs['units'] == 'days since 2001-01-01' and out.dimension_names == tuple(dims), 'name, attributes, dimensions')
    S.check(out.dimensions[ax].is_unlimited == unlimited and out.dimensions[ax].size_current == sum(lengths), 'stacked dimension')
    S.check(type(out) is klass, 'kind of variable')
    if bounds:
        S.check(out.has_bounds, 'has bounds')
        compare(S, out.bounds, np.concatenate([i[3] for i in made], axis=ax), np.repeat(rm[..., None], 2, axis=-1), 'bounds')
    for k, i in enumerate(made):
        compare(S, i[0], i[1], i[2], 'source')
        S.check(i[0].dimensions[ax].size_current == lengths[k], 'dimension of the source')
        if bounds:
            compare(S, i[0].bounds, i[3], np.repeat(i[2][..., None], 2, axis=-1), 'bounds of the source')
    # A deep copy.
    first = next(iter(np.ndindex(*ref.shape)))
    out.get_value()[first] = 1e9
    S.check(S.eq(made[0][0].get_value()[first], made[0][1][first]), 'own data')


def fields(S, lengths, masks=None, bounds=True, klass=Field, order=('time', 'x')):
    """Fields one after the other in time."""
    masks = masks or [None] * len(lengths)
    made = []
    for k, n in enumerate(lengths):
        f = klass()
        t, tm, tref, trm = content(S, 't%d' % k, (n,), None)
        tv = TemporalVariable(name='time', value=t, dimensions='time', attrs={'units': 'days since 2001-01-01', 'calendar': '360_day'})
        bref = None
        if bounds:
            b, _, bref, _ = content(S, 'tb%d' % k, (n, 2), None)
            tv.set_bounds(Variable('time_bnds', value=b, dimensions=['time', 'bnds']))
        if klass is Field:
            f.set_time(tv)
        else:
            f.add_variable(tv)
        shape = tuple({'time': n, 'x': 2}[d] for d in order)
        d, dm, dref, drm = content(S, 'd%d' % k, shape, masks[k])
        x, _, xref, xrm = content(S, 'x%d' % k, (2,), None)
        f.add_variable(Variable('x', value=x, dimensions='x'))
        f.add_variable(Variable('data', value=d, mask=dm, dimensions=order), **({'is_data': True} if klass is Field else {}))
        made.append((f, (tref, trm, bref), (dref, drm), (xref, xrm)))
    out = stack([i[0] for i in made], 'time')
    S.check(type(out) is klass and set(out.keys()) == set(made[0][0].keys()), 'kind and variables')
    ax = order.index('time')
    t = out.time if klass is Field else out['time']
    tm = np.zeros(sum(lengths), dtype=bool)
    compare(S, t, np.concatenate([i[1][0] for i in made]), tm, 'time')
    compare(S, out['data'], np.concatenate([i[2][0] for i in made], axis=ax), np.concatenate([i[2][1] for i in made], axis=ax), 'data')
    compare(S, out['x'], *made[0][3], label='not stacked')
    S.check(isinstance(t, TemporalVariable) and t.calendar == '360_day', 'still a time')
    if bounds:
        S.check(t.has_bounds, 'time has bounds')
        compare(S, t.bounds, np.concatenate([i[1][2] for i in made]), np.repeat(tm[:, None], 2, axis=1), 'bounds of the time')
    S.check(out.dimensions['time'].size_current == sum(lengths), 'stacked dimension')
    if klass is Field:
        S.check([v.name for v in out.data_variables] == ['data'], 'data variables')
    for k, i in enumerate(made):
        compare(S, i[0]['time'], i[1][0], i[1][1], 'source time')
        compare(S, i[0]['data'], *i[2], label='source data')
        S.check(i[0].dimensions['time'].size_current == lengths[k], 'dimension of the source')
        if bounds:
            compare(S, i[0]['time'].bounds, i[1][2], np.repeat(i[1][1][:, None], 2, axis=1), 'source bounds')


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    kinds = ('int', 'slice', 'step', 'bool', 'fancy')
    for kind in kinds:
        out.append((assign, {'shape': (3,), 'kinds': (kind,), 'mask': 1, 'other': 1}))
        out.append((assign, {'shape': (3,), 'kinds': (kind,), 'mask': 2}))
        out.append((assign, {'shape': (3,), 'kinds': (kind,), 'other': 1, 'bounds': True, 'mask': 1}))
        out.append((assign, {'shape': (2, 2), 'kinds': (kind,) if not deep else ('int', kind), 'mask': 1, 'other': 1, 'as_dict': True}))
    out.append((assign, {'shape': (2, 2), 'kinds': ('int', 'bool'), 'bounds': True, 'mask': 1}))
    out.append((assign, {'shape': (2, 3), 'kinds': ('bool',), 'other': 1}))
    for lengths in ((1, 2), (2, 1, 3), (2,)):
        n = len(lengths)
        for masks in (None, [1] * n, [None] * (n - 1) + [1], [1] + [None] * (n - 1)):
            out.append((variables, {'dims': ('t',), 'axis': 't', 'lengths': lengths, 'masks': masks, 'bounds': True}))
            for dims in (('t', 'x'), ('x', 't'), ('x', 't', 'y')):
                out.append((variables, {'dims': dims, 'axis': 't', 'lengths': lengths, 'masks': masks, 'obj': dims[0] == 'x'}))
        out.append((variables, {'dims': ('x', 't'), 'axis': 't', 'lengths': lengths, 'masks': [1] * n, 'unlimited': True, 'bounds': True}))
        out.append((variables, {'dims': ('t',), 'axis': 't', 'lengths': lengths, 'bounds': True, 'klass': TemporalVariable}))
        for klass in (Field, VariableCollection):
            for bounds in (True, False):
                out.append((fields, {'lengths': lengths, 'klass': klass, 'bounds': bounds, 'masks': [1] * n}))
        out.append((fields, {'lengths': lengths, 'masks': [None] * (n - 1) + [2], 'order': ('x', 'time')}))
    return out
