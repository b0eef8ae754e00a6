"""C07: selecting grid cells or points by x/y boxes."""
import numpy as np
from ocgis import Dimension, Field, Variable
from ocgis.exc import EmptySubsetError
from ocgis.spatial.geomc import PointGC, get_xyz_select
from ocgis.spatial.grid import Grid

from . import geo
from .common import nested

FUNCTIONS = ['ocgis.spatial.grid.Grid.get_intersects', 'Grid.get_spatial_subset_operation', 'get_hint_mask_from_geometry_bounds',
             'get_hint_buffer', 'GridGeometryProcessor.get_geometry_iterable', 'ocgis.variable.geom.GeometryProcessor.iter_intersects',
             'get_masking_slice', 'ocgis.util.helpers.get_trimmed_array_by_mask', 'ocgis.spatial.geomc.get_xyz_select',
             'ocgis.spatial.grid.arr_intersects_bounds', 'PointGC.get_intersects',
             'AbstractGeometryCoordinates.get_spatial_subset_operation']
BOUNDS = 'grids up to 2x2 and 3x1 (thorough 3x2), any cell rectangles and coordinates inside their cells (+-1000), one or two ' \
         'boxes; point clouds of up to 3 (thorough 4); every existing mask'
ASSUMPTIONS = ['shapely decides intersects and touches for points and axis-aligned rectangles exactly (rounding aside); the '
               'stand-ins in harness/geo.py implement these two predicates']
OUTSIDE = 'cells that are not axis-aligned rectangles, selection geometries other than boxes, parallel runs (C08)'


def coords(S, name, n, bounded, up=True):
    """Coordinates of one axis inside contiguous cells, as (values, bounds)."""
    if not bounded:
        v = S.reals(name, n)
        for i in range(n - 1):
            S.assume(v[i] < v[i + 1] if up else v[i] > v[i + 1])
        return v, None
    e = S.reals(name + '_edge', n + 1)
    v = S.reals(name, n)
    b = []
    for i in range(n):
        S.assume(e[i] < e[i + 1] if up else e[i] > e[i + 1])
        S.assume(S.and_(e[i] < v[i], v[i] < e[i + 1]) if up else S.and_(e[i] > v[i], v[i] > e[i + 1]))
        b.append([e[i], e[i + 1]])
    return v, b


def build(S, ny, nx, kind, bounded, up):
    """A grid, the centre and the rectangle of each of its cells."""
    dy, dx = Dimension('y', ny), Dimension('x', nx)
    if kind == 'vector':
        yv, yb = coords(S, 'y', ny, bounded, up)
        xv, xb = coords(S, 'x', nx, bounded)
        y = Variable('y', value=S.array(nested(yv), 'f'), dimensions=[dy])
        x = Variable('x', value=S.array(nested(xv), 'f'), dimensions=[dx])
        cen = [[(xv[j], yv[i]) for j in range(nx)] for i in range(ny)]
        rect = None
        if bounded:
            y.set_bounds(Variable('yb', value=S.array(yb, 'f'), dimensions=['y', 'b']))
            x.set_bounds(Variable('xb', value=S.array(xb, 'f'), dimensions=['x', 'b']))
            lo = lambda p: (S.min(*p), S.max(*p))
            rect = [[(lo(xb[j])[0], lo(yb[i])[0], lo(xb[j])[1], lo(yb[i])[1]) for j in range(nx)] for i in range(ny)]
    else:
        rect = [[None] * nx for _ in range(ny)]
        cen = [[None] * nx for _ in range(ny)]
        yc, xc = [[None] * nx for _ in range(ny)], [[None] * nx for _ in range(ny)]
        yb, xb = [[None] * nx for _ in range(ny)], [[None] * nx for _ in range(ny)]
        for i in range(ny):
            for j in range(nx):
                cx, cy = S.real('cx%d%d' % (i, j)), S.real('cy%d%d' % (i, j))
                cen[i][j] = (cx, cy)
                xc[i][j], yc[i][j] = cx, cy
                if bounded:
                    r = geo.sym_box(S, 'cell%d%d' % (i, j))
                    rect[i][j] = r
                    S.assume(S.and_(r[0] <= cx, cx <= r[2], r[1] <= cy, cy <= r[3]))
                    xb[i][j] = [r[0], r[2], r[2], r[0]]
                    yb[i][j] = [r[1], r[1], r[3], r[3]]
        y = Variable('y', value=S.array(yc, 'f'), dimensions=[dy, dx])
        x = Variable('x', value=S.array(xc, 'f'), dimensions=[dy, dx])
        if bounded:
            y.set_bounds(Variable('yb', value=S.array(yb, 'f'), dimensions=['y', 'x', 'b']))
            x.set_bounds(Variable('xb', value=S.array(xb, 'f'), dimensions=['y', 'x', 'b']))
        else:
            rect = None
    return Grid(x, y), cen, rect


def grid(S, ny, nx, kind, bounded, up=True, optimized=False, touches='auto', use_bounds='auto', masked=False, boxes=1, data=False):
    S.lazy()
    g, cen, rect = build(S, ny, nx, kind, bounded, up)
    if data:
        dv = S.array([[100 * i + j for j in range(nx)] for i in range(ny)], 'f')
        g.parent.add_variable(Variable('data', value=dv, dimensions=g.dimensions))
    pre = None
    if masked:
        pre = S.mask('mask', (ny, nx))
        g.set_mask(np.array(pre), cascade=data)
    bs = [geo.sym_box(S, 'box%d' % k) for k in range(boxes)]
    if boxes > 1:
        S.assume(bs[0][2] < bs[1][0])
    target = geo.make_box(S, *bs[0]) if boxes == 1 else geo.make_multi(S, bs)
    poly = bounded and use_bounds != False and not optimized
    keep = touches if touches != 'auto' else not poly

    def expected(i, j):
        if pre is not None and pre[i, j]:
            return False
        if poly:
            return S.any_([geo.box_meets(S, rect[i][j], b) if keep else geo.box_overlaps(S, rect[i][j], b) for b in bs])
        x, y = cen[i][j]
        p = (x, y, x, y)
        if optimized or keep:
            return S.any_([geo.box_meets(S, p, b) for b in bs])
        return S.any_([geo.box_overlaps(S, p, b) for b in bs])
    try:
        ret, slc = g.get_intersects(target, return_slice=True, optimized_bbox_subset=optimized, keep_touches=touches,
                                    use_bounds=use_bounds)
    except EmptySubsetError:
        ret = None
    want = {(i, j): expected(i, j) for i in range(ny) for j in range(nx)}
    if ret is None:
        S.check(S.not_(S.any_(want.values())), 'reported empty')
        return
    rows, cols = list(range(ny))[slc[0]], list(range(nx))[slc[1]]
    S.check(tuple(ret.shape) == (len(rows), len(cols)), 'shape of the result')
    if not (optimized and masked):
        S.check(S.any_(want.values()), 'empty selection reported')
    m = ret.get_mask()
    xv, yv = ret.x.get_value(), ret.y.get_value()
    for (i, j), w in want.items():
        if i not in rows or j not in cols:
            S.check(S.not_(w), 'selected cell outside the window')
            continue
        r, c = rows.index(i), cols.index(j)
        S.check(S.iff(False if m is None else m[r, c], S.not_(w)), 'mask of the cell')
        got = (xv[c], yv[r]) if kind == 'vector' else (xv[r, c], yv[r, c])
        S.check(S.and_(S.eq(got[0], cen[i][j][0]), S.eq(got[1], cen[i][j][1])), 'coordinate of the cell')
        if bounded:
            bx, by = ret.x.bounds.get_value(), ret.y.bounds.get_value()
            bx, by = (bx[c], by[r]) if kind == 'vector' else (bx[r, c], by[r, c])
            S.check(S.and_(S.eq(S.min(nested(bx)), rect[i][j][0]), S.eq(S.max(nested(by)), rect[i][j][3])), 'bounds of the cell')
        if data:
            d = ret.parent['data']
            S.check(S.eq(d.get_value()[r, c], 100 * i + j), 'data of the cell')
            dm = d.get_mask()
            S.check(S.iff(False if dm is None else dm[r, c], S.not_(w)), 'mask of the data')
    if not masked:
        S.check(g.get_mask() is None, 'original mask')


def points(S, n, touches, masked=False, boxes=1, z=False, optimized=False, cindex=False):
    """Point coordinates: the result keeps the selected elements only."""
    S.lazy()
    dim = Dimension('n', n)
    xv, yv = S.reals('x', n), S.reals('y', n)
    cen = list(zip(nested(xv), nested(yv)))
    kw = {'parent': Field()}
    gc = PointGC(Variable('x', value=xv, dimensions=[dim]), Variable('y', value=yv, dimensions=[dim]), **kw)
    gc.parent.add_variable(Variable('data', value=S.array([10. + i for i in range(n)], 'f'), dimensions=[dim]))
    pre = None
    if masked:
        pre = S.mask('mask', n)
        gc.set_mask(np.array(pre))
    bs = [geo.sym_box(S, 'box%d' % k) for k in range(boxes)]
    if boxes > 1:
        S.assume(bs[0][2] < bs[1][0])
    target = geo.make_box(S, *bs[0]) if boxes == 1 else geo.make_multi(S, bs)
    ret = gc.get_intersects(target, keep_touches=touches, optimized_bbox_subset=optimized)
    want = []
    for i, (x, y) in enumerate(cen):
        w = S.any_([(geo.box_meets if touches else geo.box_overlaps)(S, (x, y, x, y), b) for b in bs])
        want.append(False if pre is not None and pre[i] and not optimized else w)
    if ret.is_empty:
        S.check(S.not_(S.any_(want)), 'reported empty')
        return
    d = ret.parent['data'].get_value()
    S.check(S.eq(S.count(want), len(d)), 'number of selected points')
    gx, gy = ret.x.get_value(), ret.y.get_value()
    S.check(len(gx) == len(d) and ret.element_dim.size == len(d), 'length of the result')
    last = -1
    for k in range(len(d)):
        i = int(round(float(d[k]))) - 10
        S.check(i > last, 'order kept')
        last = i
        S.check(want[i], 'point not selected')
        S.check(S.and_(S.eq(gx[k], cen[i][0]), S.eq(gy[k], cen[i][1])), 'coordinates of the point')


def select(S, n, touches, z, invert):
    """The vectorized selection itself, with an optional third coordinate."""
    S.lazy()
    x, y, zv = S.reals('x', n), S.reals('y', n), S.reals('z', n)
    b = geo.sym_box(S, 'box', flat=True)
    zb = (S.real('z0'), S.real('z1'))
    S.assume(zb[0] <= zb[1])
    r = get_xyz_select(x, y, tuple(b), z=zv if z else None, z_bounds=zb if z else None, invert=invert, keep_touches=touches)
    for i in range(n):
        w = S.and_(x[i] >= b[0], x[i] <= b[2], y[i] >= b[1], y[i] <= b[3]) if touches else \
            S.and_(x[i] > b[0], x[i] < b[2], y[i] > b[1], y[i] < b[3])
        if z:
            w = S.and_(w, zv[i] >= zb[0], zv[i] <= zb[1]) if touches else S.and_(w, zv[i] > zb[0], zv[i] < zb[1])
        S.check(S.iff(r[i], S.not_(w) if invert else w), 'selection')


grid.swaps = points.swaps = geo.SWAPS


def tasks(tier):
    th = tier == 'thorough'
    out = []
    for n in (1, 3):
        for t in (True, False):
            for z in (True, False):
                for inv in (True, False):
                    out.append((select, {'n': n, 'touches': t, 'z': z, 'invert': inv}))
    shapes = [(1, 1), (1, 3), (2, 2)] + ([(3, 1), (2, 3)] if th else [])
    for ny, nx in shapes:
        for up in (True, False):
            for t in ('auto', True, False):
                out.append((grid, {'ny': ny, 'nx': nx, 'kind': 'vector', 'bounded': True, 'up': up, 'touches': t, 'data': ny == 2}))
            out.append((grid, {'ny': ny, 'nx': nx, 'kind': 'vector', 'bounded': True, 'up': up, 'optimized': True}))
        if (ny, nx) != (1, 1):
            for kind in ('vector', 'matrix'):
                out.append((grid, {'ny': ny, 'nx': nx, 'kind': kind, 'bounded': False, 'optimized': True, 'data': True}))
                out.append((grid, {'ny': ny, 'nx': nx, 'kind': kind, 'bounded': False}))
            out.append((grid, {'ny': ny, 'nx': nx, 'kind': 'vector', 'bounded': False, 'touches': False}))
            out.append((grid, {'ny': ny, 'nx': nx, 'kind': 'vector', 'bounded': True, 'use_bounds': False}))
    out.append((grid, {'ny': 1, 'nx': 2, 'kind': 'matrix', 'bounded': True}))
    out.append((grid, {'ny': 2, 'nx': 1, 'kind': 'matrix', 'bounded': True, 'touches': True}))
    for opt in (True, False):
        out.append((grid, {'ny': 1, 'nx': 2, 'kind': 'vector', 'bounded': True, 'masked': True, 'optimized': opt, 'data': True}))
        out.append((grid, {'ny': 2, 'nx': 2, 'kind': 'vector', 'bounded': False, 'masked': True, 'optimized': opt}))
        out.append((grid, {'ny': 1, 'nx': 2, 'kind': 'vector', 'bounded': True, 'boxes': 2, 'optimized': opt}))
    for n in (1, 2, 3) + ((4,) if th else ()):
        for t in (True, False):
            for m in (True, False):
                out.append((points, {'n': n, 'touches': t, 'masked': m}))
            if n < 3:
                out.append((points, {'n': n, 'touches': t, 'boxes': 2}))
            out.append((points, {'n': n, 'touches': t, 'optimized': True}))
    return out
