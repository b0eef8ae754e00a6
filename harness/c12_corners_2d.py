"""C12: two-dimensional corners agree with their centres; corner layouts and grid expansion preserve every cell."""
import numpy as np
from ocgis import Dimension, Variable
from ocgis.spatial.grid import Grid
from ocgis.util.helpers import (create_ocgis_corners_from_esmf_corners, get_esmf_corners_from_ocgis_corners,
                                get_extrapolated_corners_esmf)

FUNCTIONS = ['ocgis.util.helpers.get_extrapolated_corners_esmf', 'get_extrapolated_corners_esmf_vector',
             'create_ocgis_corners_from_esmf_corners', 'get_esmf_corners_from_ocgis_corners', 'get_is_increasing',
             'Variable.set_extrapolated_bounds', 'ocgis.spatial.grid.expand_grid', 'Grid.expand', 'Grid.set_extrapolated_bounds']
BOUNDS = 'shapes up to 3x3 (thorough 4x4), any real coordinates in +-1000 (monotonic along the orienting row and column where ' \
         'orientation is decided from them)'


def corners(S, ny, nx, yup, xup, how):
    """Extrapolated corners of a centre array that is monotonic along rows and columns."""
    c = S.reals('c', (ny, nx))
    orig = [[c[i, j] for j in range(nx)] for i in range(ny)]
    for i in range(ny - 1):
        S.assume(c[i, 0] < c[i + 1, 0] if yup else c[i, 0] > c[i + 1, 0])
    for j in range(nx - 1):
        S.assume(c[0, j] < c[0, j + 1] if xup else c[0, j] > c[0, j + 1])
    if how == 'function':
        e = get_extrapolated_corners_esmf(c)
        b = create_ocgis_corners_from_esmf_corners(e)
    else:
        var = Variable(name='v', value=c, dimensions=[Dimension('y', ny), Dimension('x', nx)])
        var.set_extrapolated_bounds('vb', 'corners')
        b = var.bounds.get_value()
        S.check(S.arr_eq(var.get_value(), S.array(orig, 'f')), 'centres unchanged')
    S.check(tuple(b.shape) == (ny, nx, 4), 'shape')
    for i in range(ny):
        for j in range(nx):
            if i + 1 < ny:
                S.check(S.and_(S.eq(b[i, j, 3], b[i + 1, j, 0]), S.eq(b[i, j, 2], b[i + 1, j, 1])), 'shared with the next row')
            if j + 1 < nx:
                S.check(S.and_(S.eq(b[i, j, 1], b[i, j + 1, 0]), S.eq(b[i, j, 2], b[i, j + 1, 3])), 'shared with the next column')
            if i + 1 < ny and j + 1 < nx:
                S.check(S.eq(b[i, j, 2] * 4, orig[i][j] + orig[i][j + 1] + orig[i + 1][j] + orig[i + 1][j + 1]),
                        'interior corners are means')
    if ny > 1 and nx > 1:
        # Outer corners continue outward by the mean spacing of the first row or column.
        dx = (orig[0][-1] - orig[0][0]) / (nx - 1)
        dy = (orig[-1][0] - orig[0][0]) / (ny - 1)
        for i in range(ny):
            if i + 1 < ny:
                S.check(S.eq(b[i, 0, 2] - b[i, 0, 3], dx), 'left edge')
                S.check(S.eq(b[i, -1, 2] - b[i, -1, 3], dx), 'right edge')
        for j in range(nx):
            if j + 1 < nx:
                S.check(S.eq(b[0, j, 2] - b[0, j, 1], dy), 'first edge')
                S.check(S.eq(b[-1, j, 2] - b[-1, j, 1], dy), 'last edge')
        for i in (0, -1):
            k = (0, 1) if i == 0 else (3, 2)
            S.check(S.and_(S.eq(b[i, 0, k[1]] - b[i, 0, k[0]], dx), S.eq(b[i, -1, k[1]] - b[i, -1, k[0]], dx)), 'extreme corners')


def regular(S, ny, nx):
    """On an axis-aligned regular grid every centre is the mean of its corners and the corners are half a cell away."""
    c0, dx = S.real('c0'), S.real('dx', -10, 10)
    S.assume(S.not_(dx == 0))
    c = S.array([[c0 + dx * j for j in range(nx)] for i in range(ny)], 'f')
    if ny == 1 or nx > 1:
        b = create_ocgis_corners_from_esmf_corners(get_extrapolated_corners_esmf(c))
        for i in range(ny):
            for j in range(nx):
                S.check(S.and_(S.eq(b[i, j, 0], c[i, j] - dx / 2), S.eq(b[i, j, 1], c[i, j] + dx / 2),
                               S.eq(b[i, j, 2], c[i, j] + dx / 2), S.eq(b[i, j, 3], c[i, j] - dx / 2)), 'half cell')
    r = S.array([[c0 + dx * i for j in range(nx)] for i in range(ny)], 'f')
    if ny > 1:
        b = create_ocgis_corners_from_esmf_corners(get_extrapolated_corners_esmf(r))
        for i in range(ny):
            for j in range(nx):
                S.check(S.and_(S.eq(b[i, j, 0], r[i, j] - dx / 2), S.eq(b[i, j, 1], r[i, j] - dx / 2),
                               S.eq(b[i, j, 2], r[i, j] + dx / 2), S.eq(b[i, j, 3], r[i, j] + dx / 2)), 'half cell (rows)')


def round_trip(S, ny, nx, masked):
    """Corners shared between cells survive conversion to the regridding layout and back."""
    e = S.reals('e', (ny + 1, nx + 1))
    o = create_ocgis_corners_from_esmf_corners(e)
    S.check(tuple(o.shape) == (ny, nx, 4), 'shape')
    for i in range(ny):
        for j in range(nx):
            S.check(S.and_(S.eq(o[i, j, 0], e[i, j]), S.eq(o[i, j, 1], e[i, j + 1]), S.eq(o[i, j, 2], e[i + 1, j + 1]),
                           S.eq(o[i, j, 3], e[i + 1, j])), 'corner order')
    arg = np.ma.array(o, mask=S.mask('m', (ny, nx, 4))) if masked else o
    back = get_esmf_corners_from_ocgis_corners(arg)
    # The regridding layout is column-major.
    S.check(tuple(back.shape) == (nx + 1, ny + 1), 'shape of the regridding layout')
    for i in range(ny + 1):
        for j in range(nx + 1):
            S.check(S.eq(back[j, i], e[i, j]), 'round trip')


def distinct_corners(S, ny, nx):
    """Cells whose shared corners are equal: every corner of every cell is found again."""
    e = S.reals('e', (ny + 1, nx + 1))
    o = create_ocgis_corners_from_esmf_corners(e)
    again = create_ocgis_corners_from_esmf_corners(np.transpose(get_esmf_corners_from_ocgis_corners(o)))
    S.check(S.arr_eq(o, again), 'same corners after a round trip')


def expand(S, ny, nx, bounded):
    x, y = S.reals('x', nx), S.reals('y', ny)
    dy, dx = Dimension('y', ny), Dimension('x', nx)
    vx, vy = Variable('vx', value=x, dimensions=dx), Variable('vy', value=y, dimensions=dy)
    if bounded:
        bx, by = S.reals('bx', (nx, 2)), S.reals('by', (ny, 2))
        vx.set_bounds(Variable('vxb', value=bx, dimensions=[dx, Dimension('bnds', 2)]))
        vy.set_bounds(Variable('vyb', value=by, dimensions=[dy, Dimension('bnds', 2)]))
    x, y = list(x), list(y)
    grid = Grid(vx, vy)
    S.check(grid.is_vectorized and tuple(grid.shape) == (ny, nx), 'before')
    grid.expand()
    S.check(not grid.is_vectorized and tuple(grid.shape) == (ny, nx), 'shape kept')
    S.check(S.arr_eq(grid.x.get_value(), S.array([x] * ny, 'f')), 'x of every cell')
    S.check(S.arr_eq(grid.y.get_value(), S.array([[v] * nx for v in y], 'f')), 'y of every cell')
    S.check([d.name for d in grid.dimensions] == ['y', 'x'], 'dimensions kept')
    S.check(grid.has_bounds == bounded, 'bounds kept')
    if bounded:
        cx, cy = grid.x.bounds.get_value(), grid.y.bounds.get_value()
        S.check(tuple(cx.shape) == (ny, nx, 4) and tuple(cy.shape) == (ny, nx, 4), 'corner shape')
        for i in range(ny):
            for j in range(nx):
                # the four corners visit the cell's rectangle in ring order
                want = [(bx[j, 0], by[i, 0]), (bx[j, 1], by[i, 0]), (bx[j, 1], by[i, 1]), (bx[j, 0], by[i, 1])]
                S.check(S.all_(S.and_(S.eq(cx[i, j, k], want[k][0]), S.eq(cy[i, j, k], want[k][1])) for k in range(4)),
                        'corners of every cell')
    # expanding twice changes nothing
    before = grid.x.get_value()
    grid.expand()
    S.check(S.arr_eq(grid.x.get_value(), before), 'expanding again')


def grid_bounds(S, ny, nx):
    """Bounds extrapolated on a whole grid refer to the right axis."""
    x, y = S.reals('x', nx), S.reals('y', ny)
    for a in (x, y):
        for i in range(len(a) - 1):
            S.assume(a[i] < a[i + 1])
    grid = Grid(Variable('vx', value=x, dimensions=Dimension('x', nx)), Variable('vy', value=y, dimensions=Dimension('y', ny)))
    grid.set_extrapolated_bounds('xb', 'yb', 'bnds')
    for var, a, name in ((grid.x, x, 'xb'), (grid.y, y, 'yb')):
        b = var.bounds.get_value()
        S.check(var.bounds.name == name, 'bounds name')
        for i in range(len(a) - 1):
            S.check(S.and_(S.eq(b[i, 1] * 2, a[i] + a[i + 1]), S.eq(b[i, 1], b[i + 1, 0])), 'midpoints')
    ex = grid.extent
    bx, by = grid.x.bounds.get_value(), grid.y.bounds.get_value()
    S.check(S.all_(S.eq(p, q) for p, q in zip(ex, (bx[0, 0], by[0, 0], bx[-1, 1], by[-1, 1]))), 'extent')


def tasks(tier):
    m = 4 if tier == 'thorough' else 3
    out = []
    for ny in range(1, m + 1):
        for nx in range(1, m + 1):
            if ny * nx > 1:
                out.append((regular, {'ny': ny, 'nx': nx}))
                for yup in (True, False) if ny > 1 else (True,):
                    for xup in (True, False) if nx > 1 else (True,):
                        out += [(corners, {'ny': ny, 'nx': nx, 'yup': yup, 'xup': xup, 'how': h}) for h in ('function', 'variable')]
            out.append((round_trip, {'ny': ny, 'nx': nx, 'masked': False}))
            out.append((distinct_corners, {'ny': ny, 'nx': nx}))
            out += [(expand, {'ny': ny, 'nx': nx, 'bounded': b}) for b in (False, True)]
            if ny > 1 and nx > 1:
                out.append((grid_bounds, {'ny': ny, 'nx': nx}))
    out.append((round_trip, {'ny': 1, 'nx': 2, 'masked': True}))
    return out
