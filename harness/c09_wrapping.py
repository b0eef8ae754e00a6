"""C09: wrapping and unwrapping longitudes."""
import numpy as np
from ocgis import Dimension, Field, GeometryVariable, Variable
from ocgis.constants import WrapAction, WrappedState
from ocgis.exc import EmptySubsetError
from ocgis.spatial.grid import Grid
from ocgis.spatial.spatial_subset import SpatialSubsetOperation
from ocgis.spatial.wrap import CoordinateArrayWrapper
from ocgis.variable.crs import CoordinateReferenceSystem, Spherical

from . import geo
from .common import nested

FUNCTIONS = ['ocgis.spatial.wrap.CoordinateArrayWrapper', 'ocgis.spatial.wrap.GeometryWrapper', 'AbstractCRS.wrap_or_unwrap',
             'AbstractCRS.get_wrapped_state', 'AbstractCRS.get_wrap_action', 'Field.wrap', 'Field.unwrap', 'Grid.remove_bounds',
             'ocgis.spatial.spatial_subset.SpatialSubsetOperation.get_spatial_subset', '_prepare_geometry_', '_prepare_target_',
             '_finalize_target']
BOUNDS = 'up to 4 longitudes in [-180, 360] as vectors or 2x2 arrays; one or two points or boxes per geometry variable; box ' \
         'subsets of up to 3 point cells in either wrapping'
ASSUMPTIONS = ['shapely intersects points and axis-aligned rectangles exactly (stand-ins in harness/geo.py)']
OUTSIDE = 'polygons other than boxes, latitudes outside +-90, rotated poles'


def turn(S, got, was):
    """The same meridian: equal up to one whole turn."""
    return S.or_(S.eq(got, was), S.eq(got, was + 360), S.eq(got, was - 360))


def arrays(S, shape, action, inplace):
    v = S.reals('v', shape, -180, 360)
    orig = nested(v)
    w = CoordinateArrayWrapper(inplace=inplace)
    r = getattr(w, action)(v)
    S.check(tuple(r.shape) == tuple(shape), 'shape kept')
    if inplace:
        S.check(S.arr_eq(v, r), 'in place')
    else:
        S.check(S.arr_eq(v, S.array(orig, 'f')), 'input kept')
    for idx in np.ndindex(*shape):
        o = orig
        for k in idx:
            o = o[k]
        moved(S, r[idx], o, action)


def moved(S, g, o, action):
    S.check(turn(S, g, o), 'same meridian')
    if action == 'wrap':
        S.check(S.and_(g >= -180, g <= 180), 'wrapped range')
        S.check(S.implies(o <= 180, S.eq(g, o)), 'in range kept')
    else:
        S.check(S.and_(g >= 0, g <= 360), 'unwrapped range')
        S.check(S.implies(o >= 0, S.eq(g, o)), 'in range kept')


def grid_field(S, n, matrix, bounded=False, lo=-180, hi=360):
    f = Field(crs=Spherical())
    if matrix:
        d = [Dimension('y', 2), Dimension('x', n)]
        xv = S.reals('x', (2, n), lo, hi)
        x = Variable('x', value=xv, dimensions=d)
        y = Variable('y', value=S.array([[0.] * n, [1.] * n], 'f'), dimensions=d)
    else:
        d = [Dimension('y', 1), Dimension('x', n)]
        xv = S.reals('x', n, lo, hi)
        x = Variable('x', value=xv, dimensions=d[1:])
        y = Variable('y', value=S.array([0.], 'f'), dimensions=d[:1])
        if bounded:
            x.set_bounds(Variable('xb', value=S.array([[i - 1, i + 1] for i in xv], 'f'), dimensions=['x', 'b']))
            y.set_bounds(Variable('yb', value=S.array([[-1., 1.]], 'f'), dimensions=['y', 'b']))
    f.add_variable(x)
    f.add_variable(y)
    data = S.reals('data', (2 if matrix else 1, n))
    f.add_variable(Variable('data', value=S.array(nested(data), 'f'), mask=S.mask('mask', data.shape), dimensions=d))
    f.set_x(x, 'x')
    f.set_y(y, 'y')
    return f, nested(xv), nested(data)


def state(S, flat):
    return S.any_([i > 180 for i in flat]), S.any_([i < 0 for i in flat])


def fields(S, n, matrix, action, bounded=False, inplace=True):
    """Wrapping a field moves coordinates only; states are right before and after; existing bounds are dropped."""
    f, xo, do = grid_field(S, n, matrix, bounded)
    flat = sum(xo, []) if matrix else xo
    over, under = state(S, flat)
    was = f.wrapped_state
    S.check(S.iff(was == WrappedState.UNWRAPPED, over), 'unwrapped state')
    S.check(S.iff(was == WrappedState.WRAPPED, S.and_(under, S.not_(over))), 'wrapped state')
    mask = f['data'].get_mask()
    mo = None if mask is None else mask.copy()
    keep = f.grid.x.get_value()
    if inplace:
        getattr(f, action)()
    else:
        f.wrap(inplace=False)
        S.check(S.arr_eq(keep, S.array(xo, 'f')), 'original values kept')
    x = f.grid.x.get_value()
    S.check(S.arr_eq(f['data'].get_value(), S.array(do, 'f')), 'data kept')
    got = f['data'].get_mask()
    S.check((got is None) == (mo is None) and (mo is None or bool((got == mo).all())), 'mask kept')
    skip = was == (WrappedState.WRAPPED if action == 'wrap' else WrappedState.UNWRAPPED)
    for g, o in zip(x.flat, flat):
        if skip:
            S.check(S.eq(g, o), 'nothing to do')
        else:
            moved(S, g, o, action)
    if bounded:
        S.check(not f.grid.has_bounds or skip, 'stale bounds dropped')
        if skip:
            b = f.grid.x.bounds.get_value()
            S.check(S.arr_eq(b, S.array([[i - 1, i + 1] for i in xo], 'f')), 'bounds kept')


def actions(S):
    """The action reconciles the states: it is needed exactly when both are known and differ."""
    states = [WrappedState.WRAPPED, WrappedState.UNWRAPPED, WrappedState.UNKNOWN]
    src, dst = S.choice('src', states), S.choice('dst', states)
    r = CoordinateReferenceSystem.get_wrap_action(src, dst)
    want = None
    if dst == WrappedState.WRAPPED and src == WrappedState.UNWRAPPED:
        want = WrapAction.WRAP
    if dst == WrappedState.UNWRAPPED and src == WrappedState.WRAPPED:
        want = WrapAction.UNWRAP
    S.check(r == want, 'wrap action')


def points(S, n, action, multi=False):
    f = Field(crs=Spherical())
    xs = [S.real('x%d' % i, -180, 360) for i in range(n)]
    value = np.empty(1 if multi else n, dtype=object)
    if multi:
        pts = [geo.make_point(S, x, i) for i, x in enumerate(xs)]
        if S.symbolic:
            value[0] = geo.MultiPointShape(pts)
        else:
            from shapely.geometry import MultiPoint
            value[0] = MultiPoint(pts)
    else:
        for i in range(n):
            value[i] = geo.make_point(S, xs[i], i)
    m = None if multi else S.mask('mask', n)
    g = GeometryVariable(name='geom', value=value, dimensions='g', crs=Spherical(), mask=m)
    over, under = state(S, [x for i, x in enumerate(xs) if m is None or not m[i]])
    was = g.wrapped_state
    if not multi and n == 1:
        S.check(S.iff(was == WrappedState.UNWRAPPED, over), 'unwrapped state')
        S.check(S.iff(was == WrappedState.WRAPPED, under), 'wrapped state')
    getattr(g, action)()
    skip = was == (WrappedState.WRAPPED if action == 'wrap' else WrappedState.UNWRAPPED)
    out = list(g.get_value()[0]) if multi and not skip else list(g.get_value())
    if multi and skip:
        return
    S.check(len(out) == n, 'number of points')
    for i, (p, o) in enumerate(zip(out, xs)):
        S.check(S.eq(p.y, i), 'latitude kept')
        if skip or (m is not None and m[i]):
            S.check(S.eq(p.x, o), 'nothing to do')
        else:
            moved(S, p.x, o, action)


def boxes(S, action, n=1):
    """A meridian lies inside the moved box exactly when it lay inside the original one."""
    lo, hi = (-180, 360) if action == 'wrap' else (-180, 180)
    bs = [geo.sym_box(S, 'box%d' % k, lo, hi, -90, 90) for k in range(n)]
    if n > 1:
        S.assume(bs[0][2] < bs[1][0])
    value = np.empty(1, dtype=object)
    value[0] = geo.make_box(S, *bs[0]) if n == 1 else geo.make_multi(S, bs)
    g = GeometryVariable(name='geom', value=value, dimensions='g', crs=Spherical())
    was = g.wrapped_state
    over, under = S.any_([b[2] > 180 for b in bs]), S.any_([b[0] < 0 for b in bs])
    S.check(S.iff(was == WrappedState.UNWRAPPED, over), 'unwrapped state')
    S.check(S.iff(was == WrappedState.WRAPPED, S.and_(under, S.not_(over))), 'wrapped state')
    getattr(g, action)()
    parts = geo.part_bounds(g.get_value()[0])
    x, y = S.real('x', -180, 360), S.real('y', -90, 90)
    S.assume(S.and_(x >= -180, x < 180) if action == 'wrap' else S.and_(x >= 0, x < 360))
    skip = was == (WrappedState.WRAPPED if action == 'wrap' else WrappedState.UNWRAPPED)
    if skip:
        S.check(len(parts) == n, 'nothing to do')
        return

    def within(px, b):
        return S.and_(b[0] < px, px < b[2], b[1] < y, y < b[3])

    def near(px, b):
        return S.and_(b[0] <= px, px <= b[2], b[1] <= y, y <= b[3])
    edge = 180 if action == 'wrap' else 0
    S.assume(S.not_(S.or_(S.eq(x, edge), S.eq(x, -edge))))
    turns = (x, x + 360) if action == 'wrap' else (x, x - 360)
    was_in = S.any_([within(t, b) for t in turns for b in bs])
    was_near = S.any_([near(t, b) for t in turns for b in bs])
    S.check(S.implies(was_in, S.any_([near(x, p) for p in parts])), 'area lost')
    S.check(S.implies(S.any_([within(x, p) for p in parts]), was_near), 'area gained')
    for p in parts:
        S.check(S.and_(p[0] >= -180, p[2] <= 180) if action == 'wrap' else S.and_(p[0] >= 0, p[2] <= 360), 'moved range')


def subset(S, n, unwrapped_field, optimized):
    """Box subsets reconcile the wrapping of box and field; the field is left as it was, also if nothing is selected."""
    f = Field(crs=Spherical())
    d = [Dimension('y', 1), Dimension('x', n)]
    lo, hi = (-20, 360) if unwrapped_field else (-180, 180)
    xv = S.reals('x', n, lo, hi)
    for i in range(n - 1):
        S.assume(xv[i] < xv[i + 1])
    if unwrapped_field:
        S.assume(xv[n - 1] > 180)
    else:
        S.assume(xv[0] < 0)
    xo = nested(xv)
    x = Variable('x', value=xv, dimensions=d[1:])
    y = Variable('y', value=S.array([0.], 'f'), dimensions=d[:1])
    f.add_variable(x)
    f.add_variable(y)
    f.add_variable(Variable('data', value=S.array([[10. + i for i in range(n)]], 'f'), dimensions=d))
    f.set_x(x, 'x')
    f.set_y(y, 'y')
    x0, x1 = S.real('bx0', -180, 360), S.real('bx1', -180, 360)
    S.assume(x0 < x1)
    if unwrapped_field:
        S.assume(x1 <= 180)
    else:
        S.assume(x0 >= 0)
    S.assume(S.or_(x0 < 0, x1 > 180))
    b = (x0, -5, x1, 5)
    value = np.empty(1, dtype=object)
    value[0] = geo.make_box(S, *b)
    g = GeometryVariable(name='geom', value=value, dimensions='g', crs=Spherical())
    try:
        ret = SpatialSubsetOperation(f).get_spatial_subset('intersects', g, optimized_bbox_subset=optimized)
    except EmptySubsetError:
        ret = None
    S.check(S.arr_eq(f.grid.x.get_value(), S.array(xo, 'f')), 'coordinates of the field kept')
    S.check(S.and_(S.eq(g.get_value()[0].bounds[0], x0), S.eq(g.get_value()[0].bounds[2], x1)), 'geometry kept')
    got = {}
    if ret is not None:
        dv, m = ret['data'].get_value(), ret['data'].get_mask()
        rx = ret.grid.x.get_value()
        for k in range(dv.shape[1]):
            i = int(round(float(dv[0, k]))) - 10
            S.check(turn(S, rx[k], xo[i]), 'same meridian')
            if m is None or not m[0, k]:
                got[i] = True
    for i in range(n):
        ts = (xo[i], xo[i] - 360, xo[i] + 360)
        S.check(S.implies(S.any_([S.and_(x0 < t, t < x1, S.not_(S.eq(t, 0)), S.not_(S.eq(t, 180))) for t in ts]), got.get(i, False)),
                'cell in the box selected')
        S.check(S.implies(got.get(i, False), S.any_([S.and_(x0 <= t, t <= x1) for t in ts])), 'cell outside the box not selected')


fields.swaps = points.swaps = boxes.swaps = subset.swaps = geo.SWAPS


def tasks(tier):
    th = tier == 'thorough'
    out = [(actions, {})]
    for a in ('wrap', 'unwrap'):
        for shape in [(1,), (3,), (2, 2)] + ([(4,), (2, 3)] if th else []):
            for ip in (True, False):
                out.append((arrays, {'shape': shape, 'action': a, 'inplace': ip}))
        for n in (1, 2) + ((3,) if th else ()):
            out.append((fields, {'n': n, 'matrix': False, 'action': a, 'bounded': True}))
            out.append((fields, {'n': n, 'matrix': False, 'action': a}))
            out.append((points, {'n': n, 'action': a}))
        out.append((fields, {'n': 2 if th else 1, 'matrix': True, 'action': a}))
        out.append((points, {'n': 2, 'action': a, 'multi': True}))
        out.append((boxes, {'action': a}))
        out.append((boxes, {'action': a, 'n': 2}))
    out.append((fields, {'n': 2, 'matrix': False, 'action': 'wrap', 'inplace': False}))
    for n in (1, 2) + ((3,) if th else ()):
        for u in (True, False):
            for o in (True, False):
                if n > 1 or o:
                    out.append((subset, {'n': n, 'unwrapped_field': u, 'optimized': o}))
    return out
