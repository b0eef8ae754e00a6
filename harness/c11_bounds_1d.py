"""C11: bounds computed from 1-D coordinates tile the axis; extents and resolutions are the true ones."""
import numpy as np
from ocgis import Dimension, Variable
from ocgis.spatial.grid import Grid
from ocgis.util.helpers import get_bounds_from_1d

FUNCTIONS = ['ocgis.util.helpers.get_bounds_from_1d', 'ocgis.util.helpers.get_bounds_vector_from_centroids',
             'Variable.set_extrapolated_bounds', 'Variable.set_bounds', 'Variable.extent', 'Variable.resolution',
             'Grid.resolution', 'Grid.resolution_x', 'Grid.resolution_y', 'Grid.extent', 'DriverNetcdfCF.array_resolution']
BOUNDS = 'floating-point coordinates, length 2..5 (thorough 8), any strictly monotonic real values in +-1000; masks: all patterns ' \
         'for length up to 4 (thorough 6)'
OUTSIDE = 'integer and date-time coordinates; containment of the two edge coordinates in their (extrapolated) cells on ' \
          'irregular axes, which the mean-spacing rule does not promise'


def monotonic(S, n, up, name='c'):
    v = S.reals(name, n)
    for i in range(n - 1):
        S.assume(v[i] < v[i + 1] if up else v[i] > v[i + 1])
    return v


def bounds(S, n, up, how):
    v = monotonic(S, n, up)
    orig = list(v)
    if how == 'function':
        b = get_bounds_from_1d(v)
    else:
        var = Variable(name='x', value=v, dimensions=Dimension('x', n))
        var.set_extrapolated_bounds('x_bounds', 'nb')
        b = var.bounds.get_value()
        S.check(var.bounds.dimensions[0].name == 'x' and var.bounds.dimensions[1].size == 2, 'bounds dimensions')
        S.check(var.bounds.name == 'x_bounds', 'bounds name')
        S.check(S.arr_eq(var.get_value(), S.array(orig, 'f')), 'coordinates unchanged')
        # the extent of a bounded variable is the span of its cells
        e = var.extent
        S.check(S.and_(S.eq(e[0], S.min(b[0, 0], b[-1, 1])), S.eq(e[1], S.max(b[0, 0], b[-1, 1]))), 'extent of bounds')
        total = S.sum_(S.ite(b[i, 1] >= b[i, 0], b[i, 1] - b[i, 0], b[i, 0] - b[i, 1]) for i in range(n))
        S.check(S.eq(var.resolution * n, total), 'resolution of bounds')
    S.check(tuple(b.shape) == (n, 2), 'shape')
    S.check(S.arr_eq(v, S.array(orig, 'f')), 'input unchanged')
    for i in range(n):
        lo, hi = (b[i, 0], b[i, 1]) if up else (b[i, 1], b[i, 0])
        S.check(lo < hi, 'cell oriented like the axis')
        if i < n - 1:
            S.check(S.eq(b[i, 1], b[i + 1, 0]), 'contiguous')
            S.check(S.eq(b[i, 1] * 2, orig[i] + orig[i + 1]), 'interior edges are midpoints')
        if 0 < i < n - 1:
            S.check(S.and_(lo < orig[i], orig[i] < hi), 'coordinate inside its cell')
    if up:
        S.check(S.and_(b[0, 0] < b[0, 1], b[-1, 1] > b[-1, 0]), 'edges outward')
    # Edge cells: half-width... the mean spacing of the interior edges (of the coordinates when there is one edge).
    if n == 2:
        d = orig[1] - orig[0]
    else:
        d = ((orig[-1] + orig[-2]) - (orig[0] + orig[1])) / 2 / (n - 2)
    S.check(S.and_(S.eq(b[0, 1] - b[0, 0], d), S.eq(b[-1, 1] - b[-1, 0], d)), 'edge cells have the mean spacing')


def regular(S, n):
    """On a regular axis every coordinate is the centre of its cell."""
    c0, step = S.real('c0'), S.real('step', -10, 10)
    S.assume(S.not_(step == 0))
    v = S.array([c0 + step * i for i in range(n)], 'f')
    b = get_bounds_from_1d(v)
    for i in range(n):
        S.check(S.and_(S.eq(b[i, 0] + b[i, 1], v[i] * 2), S.eq(b[i, 1] - b[i, 0], step)), 'centred cells')


def too_short(S, n):
    v = S.reals('c', n)
    try:
        get_bounds_from_1d(v)
    except ValueError:
        ok = True
    else:
        ok = False
    S.check(ok, 'a single coordinate cannot be bounded')


def extent(S, n, bounded):
    """Extents ignore masked elements; resolution is the mean spacing whatever the signs."""
    v = S.reals('v', n)
    m = S.mask('m', n)
    S.assume(not m.all())
    var = Variable(name='x', value=v, dimensions=Dimension('x', n), mask=m.copy())
    target = [[v[i]] for i in range(n)]
    if bounded:
        bv = S.reals('b', (n, 2))
        var.set_bounds(Variable(name='xb', value=bv, dimensions=[Dimension('x', n), Dimension('nb', 2)]))
        target = [[bv[i, 0], bv[i, 1]] for i in range(n)]
    vals = [k for i in range(n) if not m[i] for k in target[i]]
    e = var.extent
    S.check(S.and_(S.eq(e[0], S.min(vals)), S.eq(e[1], S.max(vals))), 'extent')
    S.check(S.arr_eq(var.get_value(), v), 'value kept')


def resolution(S, n, up):
    v = monotonic(S, n, up)
    var = Variable(name='x', value=v, dimensions=Dimension('x', n))
    S.check(S.eq(var.resolution * (n - 1), v[-1] - v[0] if up else v[0] - v[-1]), 'mean spacing')
    e = var.extent
    S.check(S.and_(S.eq(e[0], S.min(v[0], v[-1])), S.eq(e[1], S.max(v[0], v[-1]))), 'extent of coordinates')


def grid_resolution(S, ny, nx, up, matrix):
    y, x = monotonic(S, ny, up, 'y'), monotonic(S, nx, True, 'x')
    if matrix:
        ya = S.array([[y[i]] * nx for i in range(ny)], 'f')
        xa = S.array([list(x) for _ in range(ny)], 'f')
        d = [Dimension('y', ny), Dimension('x', nx)]
        g = Grid(Variable('x', value=xa, dimensions=d), Variable('y', value=ya, dimensions=d))
    else:
        g = Grid(Variable('x', value=x, dimensions='x'), Variable('y', value=y, dimensions='y'))
    dx, dy = (x[-1] - x[0]) / max(nx - 1, 1), abs(y[-1] - y[0]) / max(ny - 1, 1)
    S.check(S.and_(S.eq(g.resolution_x, dx), S.eq(g.resolution_y, dy)), 'mean spacing along each axis')
    S.check(S.eq(g.resolution, (dx + dy) / 2 if nx > 1 and ny > 1 else S.max(dx, dy)), 'resolution')
    S.check(S.eq(g.resolution_max, S.max(dx, dy)), 'largest resolution')
    e = g.extent
    S.check(S.and_(S.eq(e[0], x[0]), S.eq(e[1], S.min(y[0], y[-1])), S.eq(e[2], x[-1]), S.eq(e[3], S.max(y[0], y[-1]))), 'extent')


def tasks(tier):
    t = tier == 'thorough'
    out = [(too_short, {'n': n}) for n in (0, 1)]
    for n in range(2, 9 if t else 6):
        out.append((regular, {'n': n}))
        for up in (True, False):
            out += [(bounds, {'n': n, 'up': up, 'how': h}) for h in ('function', 'variable')]
            out.append((resolution, {'n': n, 'up': up}))
    for n in range(1, 6 if t else 4):
        out += [(extent, {'n': n, 'bounded': b}) for b in (False, True) if not (b and n > 4)]
    for ny, nx in [(2, 2), (1, 3), (3, 1), (2, 3)]:
        for up in (True, False):
            out += [(grid_resolution, {'ny': ny, 'nx': nx, 'up': up, 'matrix': m}) for m in (False, True) if not m or min(ny, nx) > 1]
    return out
