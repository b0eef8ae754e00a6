"""C25: broadcasting by dimension name aligns elements by name."""
from itertools import permutations

import numpy as np
from ocgis import Dimension, Variable
from ocgis.util.broadcaster import broadcast_array_by_dimension_names, broadcast_scope, broadcast_variable
from ocgis.util.helpers import get_swap_chain

FUNCTIONS = ['ocgis.util.broadcaster.{broadcast_array_by_dimension_names,broadcast_variable,broadcast_scope}', 'ocgis.util.helpers.get_swap_chain',
             'ocgis.variable.base.Variable.{set_dimensions,set_value,set_mask,remove_value}']
BOUNDS = 'up to four dimensions (five for swap chains), every order of source and destination, every set of missing and of length-one dropped dimensions, ' \
         'lengths 1 to 3, any values and any mask of the array'
OUTSIDE = 'dropped dimensions that are longer than one (numpy refuses them), broadcasting of bounds'


def permuted(S, name, items):
    """Any order of the items."""
    rest, out = list(items), []
    while rest:
        out.append(rest.pop(S.cint('%s%d' % (name, len(out)), 0, len(rest) - 1)))
    return out


def contents(S, shape, mask):
    v = S.reals('v', shape)
    ref = {i: v[i] for i in np.ndindex(*shape)}
    if mask in (None, 'none'):
        return v, None, ref, {}
    m = np.zeros(shape, dtype=bool)
    k = 0
    for i in np.ndindex(*shape):
        if mask == 'all' or k < mask:
            m[i] = S.cbool('m%d' % k)
        k += 1
    return v, m, ref, {i: bool(m[i]) for i in np.ndindex(*shape)}


def where(src, dst, i):
    """Index in the source of an element of the destination."""
    at = dict(zip(dst, i))
    return tuple(at.get(n, 0) for n in src)


def array(S, sizes, mask=None, missing=0, dropped=0, src_order=False):
    """An array to names in any order, with new names and without some names of length one."""
    names = 'abcd'[:len(sizes)]
    size = dict(zip(names, sizes), y=1, z=1)
    src = permuted(S, 's', names) if src_order else list(names)
    drop = 'yz'[:dropped]
    for n in drop:
        src.insert(S.cint('at.' + n, 0, len(src)), n)
    new = ['new%d' % i for i in range(missing)]
    dst = permuted(S, 'd', list(names) + new)
    shape = tuple(size[n] for n in src)
    v, m, ref, rm = contents(S, shape, mask)
    arr = np.ma.array(v, mask=m.copy()) if m is not None else (np.ma.array(v) if mask == 'none' else v)
    given = list(src)
    out = broadcast_array_by_dimension_names(arr, given, tuple(dst))
    S.check(given == src, 'names of the source')
    S.check(out.shape == tuple(size.get(n, 1) for n in dst), 'shape')
    S.check(isinstance(out, np.ma.MaskedArray) == isinstance(arr, np.ma.MaskedArray), 'masked array stays one')
    data = out.data if isinstance(out, np.ma.MaskedArray) else out
    om = np.ma.getmaskarray(out) if isinstance(out, np.ma.MaskedArray) else np.zeros(out.shape, dtype=bool)
    S.check(om.shape == out.shape, 'shape of the mask')
    for i in np.ndindex(*out.shape):
        j = where(src, dst, i)
        S.check(bool(om[i]) == rm.get(j, False), 'mask moves with its element')
        if not om[i]:
            S.check(S.eq(data[i], ref[j]), 'element')
    # The source stays as it was.
    S.check(arr.shape == shape, 'shape of the source')
    sm = np.ma.getmaskarray(arr) if isinstance(arr, np.ma.MaskedArray) else np.zeros(shape, dtype=bool)
    S.check(all(bool(sm[i]) == rm.get(i, False) for i in np.ndindex(*shape)), 'mask of the source')
    S.check(S.all_([S.eq(np.ma.getdata(arr)[i], ref[i]) for i in ref if not rm.get(i, False)]), 'elements of the source')


def variable(S, sizes, mask=None, scope=False, unlimited=False):
    """A variable to any order of its dimensions, and back."""
    names = 'abcd'[:len(sizes)]
    shape = tuple(sizes)
    v, m, ref, rm = contents(S, shape, mask)
    dims = [Dimension(n, size_current=s) if unlimited and n == 'b' else Dimension(n, s) for n, s in zip(names, sizes)]
    var = Variable('var', value=v, mask=m, dimensions=dims, attrs={'units': 'K'})
    dst = permuted(S, 'd', names)

    def verify(var, dst, label):
        S.check(var.dimension_names == tuple(dst), label + ' names')
        S.check(var.shape == tuple(shape[names.index(n)] for n in dst), label + ' shape')
        S.check([d.is_unlimited for d in var.dimensions] == [unlimited and n == 'b' for n in dst], label + ' unlimited dimension')
        S.check(var.has_mask == (m is not None), label + ' has a mask')
        value, mk = var.get_value(), var.get_mask()
        S.check(value.shape == var.shape and (mk is None or mk.shape == var.shape), label + ' shape of the data')
        for i in np.ndindex(*value.shape):
            j = where(names, dst, i)
            S.check((mk is not None and bool(mk[i])) == rm.get(j, False), label + ' mask')
            S.check(S.eq(value[i], ref[j]), label + ' element')
        S.check(var.attrs['units'] == 'K' and var.name == 'var', label + ' attributes')

    if not scope:
        ret = broadcast_variable(var, dst)
        S.check(ret is var, 'in place')
        verify(var, dst, 'destination')
        for i, d in zip(dst, var.dimensions):
            S.check(var.parent.dimensions[i] == d, 'dimensions of the parent')
        broadcast_variable(var, names)
    else:
        fails = S.cbool('fails')
        try:
            with broadcast_scope(var, dst) as inner:
                S.check(inner is var, 'in place')
                verify(var, dst, 'inside')
                if fails:
                    raise RuntimeError('inside')
        except RuntimeError:
            S.check(fails, 'error inside')
        else:
            S.check(not fails, 'error passes')
    verify(var, names, 'back')


def chain(S, n):
    """Swaps of two axes that make any order from any order."""
    desired = permuted(S, 'd', range(n))
    sw = get_swap_chain(list(range(n)), desired)
    # Symbolic positions carried along.
    pos = [S.int('p%d' % i, 0, 100) for i in range(n)]
    out = list(pos)
    for a, b in sw:
        out[a], out[b] = out[b], out[a]
    S.check(S.all_([S.eq(out[i], pos[desired[i]]) for i in range(n)] + [True]), 'order')
    S.check(len(sw) < n or n == 0, 'no needless swaps')


def tasks(tier):
    deep = tier == 'thorough'
    out = [(chain, {'n': n}) for n in range(1, 6 if deep else 5)]
    for sizes in ((2,), (2, 3), (1, 2, 3), (2, 1, 2), (2, 2, 1, 2)):
        n = len(sizes)
        for mask in (None, 'none', 2):
            out.append((array, {'sizes': sizes, 'mask': mask}))
        if n < 4:
            out.append((array, {'sizes': sizes, 'mask': 1, 'missing': 1, 'src_order': True}))
            out.append((array, {'sizes': sizes, 'mask': 1, 'dropped': 1}))
            out.append((array, {'sizes': sizes, 'missing': 1, 'dropped': 1}))
        out.append((variable, {'sizes': sizes, 'mask': 2}))
        out.append((variable, {'sizes': sizes}))
        out.append((variable, {'sizes': sizes, 'mask': 1, 'scope': True}))
    out.append((array, {'sizes': (2, 2), 'mask': 'all'}))
    out.append((array, {'sizes': (2, 2), 'mask': 1, 'missing': 2, 'dropped': 2}))
    out.append((variable, {'sizes': (2, 2), 'mask': 'all'}))
    out.append((variable, {'sizes': (1, 2, 2), 'unlimited': True, 'mask': 1}))
    if deep:
        out.append((array, {'sizes': (2, 3), 'mask': 'all', 'missing': 1}))
        out.append((array, {'sizes': (2, 2, 2), 'mask': 'all'}))
        out.append((array, {'sizes': (2, 1, 2, 2), 'mask': 2, 'src_order': True}))
        out.append((array, {'sizes': (2, 1, 3), 'mask': 2, 'missing': 2, 'dropped': 2}))
        out.append((variable, {'sizes': (2, 3), 'mask': 'all', 'scope': True}))
    return out
