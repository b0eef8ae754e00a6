"""C31: geometry subsets keep exactly the elements the predicate accepts."""
import numpy as np
from ocgis import Dimension, Field, GeometryVariable, Variable, vm
from ocgis.exc import EmptySubsetError
from ocgis.spatial.grid import Grid
from ocgis.variable.dimension import create_distributed_dimension
from symex import ranks
from symex.engine import active

from . import geo
from .c07_box_select import coords
from .common import nested

import ocgis.spatial.index
import rtree.index

FUNCTIONS = ['ocgis.variable.geom.GeometryVariable.{get_intersects,get_intersection,get_mask_from_intersects,get_spatial_index,get_spatial_subset_operation,'
             'get_nearest}', 'geometryvariable_get_mask_from_intersects', 'get_masking_slice', 'GeometryProcessor', 'ocgis.spatial.index.SpatialIndex',
             'ocgis.variable.base.{set_mask_by_variable,Variable.set_mask}']
BOUNDS = 'up to 4 geometries (points or rectangles anywhere, +-1000) in one or two dimensions, one or two boxes, every existing mask of the geometries; one ' \
         'worker, or two workers with up to 3 geometries'
ASSUMPTIONS = ['shapely decides intersects and touches for points and axis-aligned rectangles exactly (rounding aside); the rtree library returns the boxes that '
               'meet a box', 'workers are simulated in one process (symex/ranks.py)']
OUTSIDE = 'geometries that are not points or rectangles, geometries that touch only in a corner of two boxes'


class Index(object):
    """What is used of rtree.index.Index."""

    def __init__(self, *args):
        self.items = []

    def insert(self, key, bounds):
        self.items.append((key, tuple(bounds)))

    def intersection(self, b):
        for key, a in self.items:
            if geo.sym_and(a[0] <= b[2], b[0] <= a[2], a[1] <= b[3], b[1] <= a[3]):
                yield key


class _Module(object):
    """Stands for rtree.index."""
    Rtree = Index

    @staticmethod
    def Index(*args):
        return Index(*args) if active() else rtree.index.Index(*args)


def shapes(S, name, n, kind):
    """Bounds of the geometries."""
    out = []
    for i in range(n):
        if kind == 'point':
            x, y = S.real('%s%d.x' % (name, i)), S.real('%s%d.y' % (name, i))
            S.assume(S.and_(x >= -1000, x <= 1000, y >= -1000, y <= 1000))
            out.append((x, y, x, y))
        else:
            out.append(tuple(geo.sym_box(S, '%s%d' % (name, i))))
    return out


def make(S, kind, b):
    return geo.make_point(S, b[0], b[1]) if kind == 'point' else geo.make_box(S, *b)


def accepts(S, b, boxes, touches, kind):
    """Whether the predicate accepts a geometry."""
    return S.any_([(geo.box_meets if touches else geo.box_overlaps)(S, b, k) for k in boxes] + [False])


def setup(S, shape, kind, masked, boxes, data, nt):
    n = int(np.prod(shape))
    bs = shapes(S, 'g', n, kind)
    target = [tuple(geo.sym_box(S, 'box%d' % k)) for k in range(boxes)]
    if boxes > 1:
        S.assume(target[0][2] < target[1][0])
    mask = np.array(S.mask('m', shape)).reshape(shape) if masked else np.zeros(shape, dtype=bool)
    values = S.reals('data', (nt,) + tuple(shape)) if data else None
    return bs, target, mask, values


def field_of(S, dims, bs, kind, mask, masked, values, nt):
    shape = tuple(len(i) for i in dims) if not isinstance(dims[0], Dimension) else tuple(d.size for d in dims)
    g = np.empty(shape, dtype=object)
    for k, i in enumerate(np.ndindex(*shape)):
        g[i] = make(S, kind, bs[k])
    field = Field()
    gv = GeometryVariable(name='geom', value=g, dimensions=dims, mask=mask.copy() if masked else None, parent=field)
    field.set_geom(gv)
    field.add_variable(Variable(name='data', value=values.copy(), dimensions=[Dimension('t', nt)] + list(dims)), is_data=True)
    field.add_variable(Variable(name='t', value=S.array([10. * i for i in range(nt)], 'f'), dimensions=['t']))
    return field


def verify(S, ret, src, bs, keep, values, nt, boxes, op, kind):
    """The result has the elements ``src`` (position in the whole array per element of the result)."""
    d = ret.parent['data']
    S.check(ret.shape == src.shape and d.shape == (nt,) + src.shape, 'shape')
    gm, dm = ret.get_mask(), d.get_mask()
    for i in np.ndindex(*src.shape):
        k = int(src[i])
        hidden = gm is not None and bool(gm[i])
        S.check(S.iff(keep[k], not hidden), 'unmasked exactly where accepted')
        for t in range(nt):
            S.check((dm is not None and bool(dm[(t,) + i])) == hidden, 'mask of the data')
            S.check(S.eq(d.get_value()[(t,) + i], values.reshape(nt, -1)[t, k]), 'data of the element')
        g = ret.get_value()[i]
        b = bs[k]
        if hidden:
            continue
        parts = geo.part_bounds(g)
        if op == 'intersects':
            S.check(len(parts) == 1 and S.all_([S.eq(p, q) for p, q in zip(parts[0], b)]), 'geometry of the element')
        else:
            for p in parts:
                S.check(S.any_([S.and_(*[S.eq(v, w) for v, w in zip(p, (S.max(b[0], x[0]), S.max(b[1], x[1]), S.min(b[2], x[2]), S.min(b[3], x[3])))])
                                for x in boxes]), 'intersection of the element')
            if kind == 'rect':
                S.check(S.eq(S.count([geo.box_overlaps(S, b, x) for x in boxes]), S.count([S.and_(p[0] < p[2], p[1] < p[3]) for p in parts] + [False])),
                        'parts of the intersection')
            else:
                S.check(len(parts) == 1, 'point kept')
    tv = ret.parent['t']
    S.check(tv.get_mask() is None and [float(v) for v in tv.get_value()] == [10. * i for i in range(nt)], 'other variables')


def subset(S, shape, kind='rect', op='intersects', touches=False, masked=False, boxes=1, index=True, nt=1, hint=False, box_tuple=False, inplace=False):
    """One worker."""
    bs, target, mask, values = setup(S, shape, kind, masked, boxes, True, nt)
    dims = [Dimension('d%d' % i, n) for i, n in enumerate(shape)]
    field = field_of(S, dims, bs, kind, mask, masked, values, nt)
    gv = field.geom
    kwargs = {'use_spatial_index': index, 'keep_touches': touches}
    hidden = mask
    if hint:
        # Hints are made from the mask.
        hidden = np.array(S.mask('hint', shape)).reshape(shape) | mask
        kwargs['original_mask'] = hidden.copy()
    t = geo.make_box(S, *target[0]) if boxes == 1 else geo.make_multi(S, target)
    if box_tuple:
        t = tuple(target[0]) if S.symbolic else tuple(float(i) for i in target[0])
    keep = [S.and_(not bool(h), accepts(S, b, target, touches, kind)) for h, b in zip(hidden.flat, bs)]
    with_slice = {'return_slice': True} if not inplace else {}
    try:
        if box_tuple:
            r = gv.get_intersects(t, **dict(kwargs, **with_slice))
        else:
            r = gv.get_spatial_subset_operation(op, t, **dict(kwargs, **with_slice))
    except EmptySubsetError:
        S.check(S.not_(S.any_(keep)), 'reported empty')
        return
    ret, slc = r if with_slice else (r, None)
    S.check(S.any_(keep), 'not reported empty')
    src = np.arange(len(bs)).reshape(shape)
    if slc is not None:
        slc = tuple(slc)
        src = src[slc]
    # Smallest window.
    for axis in range(len(shape)):
        first, last = np.take(src, 0, axis), np.take(src, -1, axis)
        S.check(S.and_(S.any_([keep[int(k)] for k in first.flat]), S.any_([keep[int(k)] for k in last.flat])), 'smallest window')
    inside = set(int(k) for k in src.flat)
    S.check(S.not_(S.any_([keep[k] for k in range(len(bs)) if k not in inside] + [False])), 'nothing lost')
    verify(S, ret, src, bs, keep, values, nt, target, op, kind)
    # The original.
    om = gv.get_mask()
    S.check((om is None and not masked) or np.array_equal(om, mask), 'mask of the original')
    for k, i in enumerate(np.ndindex(*shape)):
        parts = geo.part_bounds(gv.get_value()[i])
        S.check(len(parts) == 1 and S.all_([S.eq(p, q) for p, q in zip(parts[0], bs[k])]), 'geometry of the original')


def workers(S, sizes, kind='rect', op='intersects', touches=False, masked=False, boxes=1, index=True):
    """Several workers: every one keeps its part of the window."""
    total = sum(sizes)
    bs, target, mask, values = setup(S, (total,), kind, masked, boxes, True, 1)
    keep = [S.and_(not bool(h), accepts(S, b, target, touches, kind)) for h, b in zip(mask, bs)]

    def f(rank):
        lo = sum(sizes[:rank])
        hi = lo + sizes[rank]
        dim = create_distributed_dimension(sizes[rank], name='d', src_idx=(lo, hi) if hi > lo else None)
        if lo == hi:
            gv = GeometryVariable(name='geom', dimensions=[dim], is_empty=True)
        else:
            gv = field_of(S, [dim], bs[lo:hi], kind, mask[lo:hi], masked, values[:, lo:hi], 1).geom
        with vm.scoped_by_emptyable('subset', gv):
            if vm.is_null:
                return None
            t = geo.make_box(S, *target[0]) if boxes == 1 else geo.make_multi(S, target)
            try:
                return gv.get_spatial_subset_operation(op, t, use_spatial_index=index, keep_touches=touches, return_slice=True)
            except EmptySubsetError:
                return 'empty'

    res = ranks.values(ranks.run(len(sizes), f))
    live = [r for r in range(len(sizes)) if sizes[r]]
    if any(isinstance(res[r], str) for r in live):
        S.check(all(isinstance(res[r], str) for r in live), 'reported empty by every worker')
        S.check(S.not_(S.any_(keep)), 'reported empty')
        return
    S.check(S.any_(keep), 'not reported empty')
    windows = {tuple((int(s.start), int(s.stop)) for s in res[r][1]) for r in live}
    S.check(len(windows) == 1, 'the same window on every worker')
    a, b = windows.pop()[0]
    S.check(S.and_(keep[a], keep[b - 1]), 'smallest window')
    S.check(S.not_(S.any_([keep[k] for k in range(total) if not a <= k < b] + [False])), 'nothing lost')
    for r in live:
        lo = sum(sizes[:r])
        src = np.array([k for k in range(lo, lo + sizes[r]) if a <= k < b], dtype=int)
        ret = res[r][0]
        if not len(src):
            S.check(ret.is_empty, 'empty outside of the window')
            continue
        S.check(not ret.is_empty, 'not empty in the window')
        verify(S, ret, src, bs, keep, values, 1, target, op, kind)
        d = ret.dimensions[0]
        S.check(tuple(d.bounds_local) == (int(src[0]) - a, int(src[-1]) + 1 - a) and tuple(d.bounds_global) == (0, b - a), 'bounds')


def grid(S, sizes, ny=1, bounded=True, op='intersects', touches='auto', masked=False, boxes=1, optimized=False):
    """A grid on one or several workers: data and mask, and the intersections of cells."""
    S.lazy()
    total, P = sum(sizes), len(sizes)
    yv, yb = coords(S, 'y', ny, bounded)
    xv, xb = coords(S, 'x', total, bounded)
    target = [tuple(geo.sym_box(S, 'box%d' % k)) for k in range(boxes)]
    if boxes > 1:
        S.assume(target[0][2] < target[1][0])
    mask = np.array(S.mask('m', (ny, total))).reshape(ny, total) if masked else np.zeros((ny, total), dtype=bool)
    data = S.reals('data', (ny, total))
    cells = [[(xb[j][0], yb[i][0], xb[j][1], yb[i][1]) if bounded and not optimized else (xv[j], yv[i], xv[j], yv[i]) for j in range(total)] for i in range(ny)]
    keep_touches = touches if touches != 'auto' else not bounded
    if optimized:
        keep_touches = True
    keep = {(i, j): S.and_(not mask[i, j], accepts(S, cells[i][j], target, keep_touches, None)) for i in range(ny) for j in range(total)}

    def f(rank):
        lo = sum(sizes[:rank])
        hi = lo + sizes[rank]
        dx = create_distributed_dimension(sizes[rank], name='x') if P > 1 else Dimension('x', total)
        dy = Dimension('y', ny)
        if lo == hi:
            g = Grid(Variable('x', dimensions=[dx], is_empty=True), Variable('y', dimensions=[dy], is_empty=True), parent=Field())
        else:
            y = Variable('y', value=S.array(nested(yv), 'f'), dimensions=[dy])
            x = Variable('x', value=S.array(nested(xv)[lo:hi], 'f'), dimensions=[dx])
            if bounded:
                y.set_bounds(Variable('yb', value=S.array(yb, 'f'), dimensions=[dy, 'b']))
                x.set_bounds(Variable('xb', value=S.array(xb[lo:hi], 'f'), dimensions=[dx, 'b']))
            g = Grid(x, y, parent=Field())
            g.parent.add_variable(Variable('data', value=data[:, lo:hi], dimensions=g.dimensions))
            if masked:
                g.set_mask(mask[:, lo:hi].copy(), cascade=True)
        with vm.scoped_by_emptyable('subset', g):
            if vm.is_null:
                return None
            t = geo.make_box(S, *target[0]) if boxes == 1 else geo.make_multi(S, target)
            try:
                return g.get_spatial_subset_operation(op, t, keep_touches=touches, return_slice=True, optimized_bbox_subset=optimized)
            except EmptySubsetError:
                return 'empty'

    res = ranks.values(ranks.run(P, f)) if P > 1 else [f(0)]
    live = [r for r in range(P) if sizes[r]]
    if any(isinstance(res[r], str) for r in live):
        S.check(all(isinstance(res[r], str) for r in live), 'reported empty by every worker')
        S.check(S.not_(S.any_(keep.values())), 'reported empty')
        return
    if not (optimized and masked):
        S.check(S.any_(keep.values()), 'not reported empty')
    windows = {tuple((int(s.start), int(s.stop)) for s in res[r][1]) for r in live}
    S.check(len(windows) == 1, 'the same window on every worker')
    (ya, ye), (xa, xe) = windows.pop()
    S.check(S.not_(S.any_([k for (i, j), k in keep.items() if not (ya <= i < ye and xa <= j < xe)] + [False])), 'nothing lost')
    if not (optimized and masked):
        for i in (ya, ye - 1):
            S.check(S.any_([keep[i, j] for j in range(total)]), 'smallest window')
        for j in (xa, xe - 1):
            S.check(S.any_([keep[i, j] for i in range(ny)]), 'smallest window')
    for r in live:
        lo = sum(sizes[:r])
        cols = [j for j in range(lo, lo + sizes[r]) if xa <= j < xe]
        ret = res[r][0]
        if not cols:
            S.check(ret.is_empty, 'empty outside of the window')
            continue
        S.check(not ret.is_empty and tuple(ret.shape) == (ye - ya, len(cols)), 'shape')
        d = ret.parent['data']
        gm, dm = ret.get_mask(), d.get_mask()
        for a, i in enumerate(range(ya, ye)):
            for b, j in enumerate(cols):
                S.check(S.iff(keep[i, j], gm is None or not bool(gm[a, b])), 'unmasked exactly where accepted')
                S.check((dm is not None and bool(dm[a, b])) == (gm is not None and bool(gm[a, b])), 'mask of the data')
                S.check(S.eq(d.get_value()[a, b], data[i, j]), 'data of the cell')
                if op == 'intersection' and not (gm is not None and bool(gm[a, b])):
                    c = cells[i][j]
                    parts = geo.part_bounds(ret.get_value()[a, b])
                    for p in parts:
                        S.check(S.any_([S.and_(*[S.eq(v, w) for v, w in zip(p, (S.max(c[0], x[0]), S.max(c[1], x[1]), S.min(c[2], x[2]), S.min(c[3], x[3])))])
                                        for x in target]), 'intersection of the cell')
                    if bounded:
                        S.check(S.eq(S.count([geo.box_overlaps(S, c, x) for x in target]), S.count([S.and_(p[0] < p[2], p[1] < p[3]) for p in parts] + [False])),
                                'parts of the intersection')
        if op == 'intersects':
            S.check(S.arr_eq(ret.x.get_value(), S.array([nested(xv)[j] for j in cols], 'f')), 'x coordinates')


def nearest(S, n, kind='point', masked=False):
    """The nearest unmasked geometry (by centre of the target)."""
    bs = shapes(S, 'g', n, kind)
    mask = np.array(S.mask('m', (n,))) if masked else np.zeros(n, dtype=bool)
    if mask.all():
        S.check(True, 'nothing to find')
        return
    data = S.reals('data', (1, n))
    gv = field_of(S, [Dimension('d', n)], bs, kind, mask, masked, data, 1).geom
    t = geo.sym_box(S, 't')
    cx, cy = (t[0] + t[2]) / 2, (t[1] + t[3]) / 2
    dist = [(b[0] - cx) * (b[0] - cx) + (b[1] - cy) * (b[1] - cy) for b in bs]
    ret, idx = gv.get_nearest(geo.make_box(S, *t), return_indices=True)
    k = int(idx[0])
    S.check(not mask[k], 'unmasked')
    S.check(S.all_([dist[k] <= d for i, d in enumerate(dist) if not mask[i]]), 'nearest')
    S.check(S.eq(ret.parent['data'].get_value().flatten()[0], data[0, k]), 'data of the element')


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    for op in ('intersects', 'intersection'):
        for index in (True, False):
            out.append((subset, {'shape': (2,), 'op': op, 'index': index}))
            out.append((subset, {'shape': (2,), 'op': op, 'index': index, 'masked': True, 'touches': True}))
            out.append((subset, {'shape': (3,), 'kind': 'point', 'op': op, 'index': index, 'touches': True, 'nt': 2}))
            out.append((subset, {'shape': (2, 2), 'kind': 'point', 'op': op, 'index': index, 'masked': True}))
            out.append((subset, {'shape': (1, 2), 'op': op, 'index': index, 'boxes': 2}))
            out.append((workers, {'sizes': (2, 1), 'kind': 'point', 'op': op, 'index': index, 'masked': True}))
        out.append((workers, {'sizes': (1, 1), 'op': op}))
        out.append((workers, {'sizes': (0, 2), 'op': op, 'touches': True}))
        for sizes in ((2,), (1, 1), (2, 0, 1)) if deep or op == 'intersects' else ((2,), (1, 1)):
            out.append((grid, {'sizes': sizes, 'op': op}))
        for sizes in ((3,), (2, 0, 2)) if deep or op == 'intersects' else ((3,),):
            out.append((grid, {'sizes': sizes, 'op': op, 'bounded': False}))
        out.append((grid, {'sizes': (2,), 'op': op, 'boxes': 2}))
        out.append((grid, {'sizes': (2,), 'op': op, 'masked': True}))
        if deep or op == 'intersects':
            out.append((grid, {'sizes': (1, 1), 'op': op, 'masked': True}))
    out.append((grid, {'sizes': (1, 2), 'optimized': True, 'bounded': False, 'ny': 2}))
    out.append((nearest, {'n': 3}))
    out.append((nearest, {'n': 3, 'masked': True}))
    out.append((subset, {'shape': (2,), 'hint': True, 'masked': True}))
    out.append((subset, {'shape': (3,), 'kind': 'point', 'hint': True, 'index': False}))
    out.append((subset, {'shape': (2,), 'box_tuple': True}))
    return out


for _f in (subset, workers, grid, nearest):
    _f.swaps = geo.SWAPS
    _f.patches = {('ocgis.spatial.index', 'index'): _Module}
