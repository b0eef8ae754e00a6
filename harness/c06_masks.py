"""C06: masks reach every variable sharing the masked dimensions, aligned by dimension name."""
import itertools

import numpy as np
from ocgis import Dimension, Field, Variable, VariableCollection
from ocgis.spatial.grid import Grid
from ocgis.variable.crs import Spherical

from .common import nested

FUNCTIONS = ['ocgis.variable.base.Variable.set_mask', 'Variable.get_mask', 'VariableCollection.set_mask', 'set_mask_by_variable',
             'get_mapping_for_slice', 'ocgis.spatial.base.AbstractXYZSpatialContainer.set_mask', 'AbstractDriver.set_spatial_mask',
             'AbstractDriver.get_or_create_spatial_mask', 'ocgis.spatial.grid.grid_set_mask_cascade',
             'ocgis.spatial.base.create_spatial_mask_variable']
BOUNDS = 'dimension lengths 1..2 (thorough 3), source masks on one or two dimensions: every pattern; targets on every arrangement ' \
         'of up to three dimensions sharing at least one, with arbitrary existing masks and values'

SIZES = {'t': 2, 'c': 2}
TARGETS = [('a', 'b'), ('b', 'a'), ('t', 'a', 'b'), ('b', 't', 'a'), ('a',), ('c', 'b'), ('c',), ('t', 'c'), ()]


def name_of(dn):
    return '_'.join(dn) or 'scalar'


def aligned(src_dims, src_mask, dn, idx):
    """True if some masked source element agrees with the target element on every shared dimension."""
    pos = dict(zip(dn, idx))
    for sidx in np.ndindex(*src_mask.shape):
        if src_mask[sidx] and all(pos.get(d, i) == i for d, i in zip(src_dims, sidx)):
            return True
    return False


def has(m, idx):
    return False if m is None else m[idx]


def make(S, sizes, targets, premasked):
    dims = {k: Dimension(k, v) for k, v in sizes.items()}
    vs, ref = [], {}
    for dn in targets:
        shp = tuple(sizes[d] for d in dn)
        nm = name_of(dn)
        v = S.reals('v_' + nm, shp) if dn else S.array(S.real('v_scalar'), 'f')
        m = S.bools('m_' + nm, shp) if premasked and dn else None
        ref[dn] = (nested(v), m)
        vs.append(Variable(name=nm, value=v, mask=m, dimensions=[dims[d] for d in dn]))
    return dims, vs, ref


def compare(S, var, dn, sizes, before, expect, what):
    shp = tuple(sizes[d] for d in dn)
    got = var.get_mask()
    for idx in np.ndindex(*shp):
        S.check(S.iff(has(got, idx), expect(has(before, idx), idx)), '{}: mask of {}'.format(what, name_of(dn)))


def collection(S, sizes, src, update, premasked, how):
    """Variable.set_mask(cascade=True) and VariableCollection.set_mask()."""
    S.lazy()
    sizes = dict(SIZES, **sizes)
    dims, vs, ref = make(S, sizes, [t for t in TARGETS if t != src], premasked)
    sshape = tuple(sizes[d] for d in src)
    old = S.bools('old', sshape) if premasked else None
    sv = S.reals('sv', sshape)
    svn = nested(sv)
    source = Variable(name='source', value=sv, mask=old, dimensions=[dims[d] for d in src])
    same = Variable(name='same', value=S.reals('same', sshape), mask=S.bools('m_same', sshape), dimensions=[dims[d] for d in src])
    same_before = same.get_mask().copy()
    vc = VariableCollection(variables=[source, same] + vs)
    keep = vc.copy()
    source = vc['source']
    m = S.mask('mask', sshape)
    if how == 'cascade':
        source.set_mask(m, cascade=True, update=update)
    else:
        source.set_mask(m, update=update)
        vc.set_mask(source, update=update, exclude=['a'] if how == 'exclude' else None)
    # The source
    compare(S, vc['source'], src, sizes, old, lambda b, i: S.or_(m[i], b) if update else m[i], 'source')
    if premasked and update:
        # positions masked only by the old mask cascade as well; they are symbolic, so only growth is checked below
        pass
    src_now = vc['source'].get_mask()
    compare(S, vc['same'], src, sizes, same_before,
            lambda b, i: S.or_(src_now[i], b) if update else src_now[i], 'same dimensions')
    for dn, (val, before) in ref.items():
        var = vc[name_of(dn)]
        S.check(S.arr_eq(var.get_value(), np.array(val, dtype=object) if S.symbolic else np.array(val)), 'values kept')
        if not dn:
            S.check(var.get_mask() is None, 'scalar untouched')
            continue
        untouched = not set(dn) & set(src) or (how == 'exclude' and dn == ('a',))
        if untouched:
            compare(S, var, dn, sizes, before, lambda b, i: b, 'unrelated')
        else:
            def expect(b, i):
                hits = [src_now[s] for s in np.ndindex(*sshape)
                        if all(dict(zip(dn, i)).get(d, k) == k for d, k in zip(src, s))]
                return S.or_(b, S.any_(hits))

            compare(S, var, dn, sizes, before, expect, 'aligned')
    # A copy made before is not affected.
    for dn, (val, before) in ref.items():
        if dn:
            compare(S, keep[name_of(dn)], dn, sizes, before, lambda b, i: b, 'copy untouched')
    compare(S, keep['same'], src, sizes, same_before, lambda b, i: b, 'copy untouched')
    S.check(S.arr_eq(vc['source'].get_value(), np.array(svn, dtype=object) if S.symbolic else np.array(svn)), 'values kept')


def bounds(S, n, premasked):
    """The mask of a bounded variable carries over to whole rows of its bounds."""
    S.lazy()
    d = Dimension('a', n)
    bm = S.bools('bm', (n, 2)) if premasked else None
    b0 = None if bm is None else bm.copy()
    var = Variable(name='v', value=S.reals('v', n), dimensions=d)
    var.set_bounds(Variable(name='b', value=S.reals('b', (n, 2)), mask=bm, dimensions=[d, 'nb']))
    m = S.mask('m', n)
    var.set_mask(m)
    got = var.bounds.get_mask()
    for i in range(n):
        for k in range(2):
            S.check(S.iff(has(got, (i, k)), S.or_(m[i], has(b0, (i, k)))), 'bounds masked by row')
        S.check(S.iff(has(var.get_mask(), i), m[i]), 'own mask')


def field(S, ny, nx, again, data_masked):
    """A spatial mask set on a grid reaches the data but not the coordinates; copies keep theirs."""
    S.lazy()
    dt, dy, dx = Dimension('time', 2), Dimension('y', ny), Dimension('x', nx)
    x = Variable(name='xc', value=S.reals('x', nx), dimensions=dx)
    y = Variable(name='yc', value=S.reals('y', ny), dimensions=dy)
    shapes = {'txy': ((dt, dy, dx), (2, ny, nx)), 'xy': ((dy, dx), (ny, nx)), 't': ((dt,), (2,))}
    data, pre = [], {}
    for k, (dd, shp) in shapes.items():
        pre[k] = S.bools('m_' + k, shp) if data_masked else None
        data.append(Variable(name=k, value=S.reals('d_' + k, shp), mask=None if pre[k] is None else pre[k].copy(), dimensions=dd))
    f = Field(grid=Grid(x, y), crs=Spherical(), is_data=data)
    keep = f.copy()
    m = S.mask('mask', (ny, nx))
    target = f.copy()
    target.grid.set_mask(m, cascade=True)
    total = m
    if again:
        m2 = S.mask('mask2', (ny, nx))
        target.grid.set_mask(m2, cascade=True)
        total = np.logical_or(m, m2)
        m = m2
    got = target.grid.get_mask()
    for i in np.ndindex(ny, nx):
        S.check(S.iff(got[i], m[i]), 'spatial mask')
        S.check(S.iff(has(target['xy'].get_mask(), i), S.or_(total[i], has(pre['xy'], i))), 'data on the grid keeps its own mask')
        for t in range(2):
            S.check(S.iff(has(target['txy'].get_mask(), (t,) + i), S.or_(total[i], has(pre['txy'], (t,) + i))),
                    'data with time keeps its own mask')
    for t in range(2):
        S.check(S.iff(has(target['t'].get_mask(), t), has(pre['t'], t)), 'unrelated data')
    S.check(target['xc'].get_mask() is None and target['yc'].get_mask() is None, 'coordinates are not masked')
    for orig in (f, keep):
        for k, (dd, shp) in shapes.items():
            gm = orig[k].get_mask()
            S.check(S.all_(S.iff(has(gm, i), has(pre[k], i)) for i in np.ndindex(*shp)), 'original untouched')
        S.check(orig.grid.get_mask() is None, 'original grid untouched')


def tasks(tier):
    t = tier == 'thorough'
    out = []
    for sizes in ([{'a': 2, 'b': 2}, {'a': 1, 'b': 3}, {'a': 3, 'b': 2}] if t else [{'a': 2, 'b': 2}]):
        for src in (('a', 'b'), ('b', 'a'), ('b',)) + ((('a', 't'),) if t else ()):
            for update in (False, True):
                for how in ('cascade', 'collection'):
                    out.append((collection, {'sizes': sizes, 'src': src, 'update': update, 'premasked': not update, 'how': how}))
        out.append((collection, {'sizes': sizes, 'src': ('b',), 'update': True, 'premasked': True, 'how': 'cascade'}))
        out.append((collection, {'sizes': sizes, 'src': ('b', 'a'), 'update': False, 'premasked': False, 'how': 'exclude'}))
    for n in range(1, 5 if t else 4):
        out += [(bounds, {'n': n, 'premasked': p}) for p in (False, True)]
    for dm in (False, True):
        out += [(field, {'ny': 2, 'nx': 2, 'again': False, 'data_masked': dm}), (field, {'ny': 1, 'nx': 2, 'again': True, 'data_masked': dm})]
        if t:
            out += [(field, {'ny': 2, 'nx': 3, 'again': False, 'data_masked': dm}), (field, {'ny': 2, 'nx': 2, 'again': True, 'data_masked': dm})]
    return out
