"""C10: reordering a wrapped grid permutes everything on the longitude dimension alike."""
import numpy as np
from ocgis import Dimension, Field, Variable
from ocgis.constants import WrappedState
from ocgis.spatial.grid import reorder_array
from ocgis.variable.crs import Spherical

from .common import nested

FUNCTIONS = ['ocgis.spatial.grid.Grid.reorder', 'ocgis.spatial.grid.reorder_array', 'Grid.wrap', 'Variable.set_mask']
BOUNDS = 'grids of 1..3 rows and up to 4 (thorough 5) longitudes; any longitudes that ascend up to one jump; data on every ' \
         'arrangement of time, row and longitude dimensions with every mask'
OUTSIDE = 'rows with more than one jump from positive to negative longitudes, distributed grids'


def roll(row, k):
    return row[k:] + row[:k]


def longitudes(S, name, n, k):
    """n longitudes in +-180: the first n-k are non-negative and ascend, the remaining ones are negative and ascend."""
    v = S.reals(name, n, -180, 180)
    for i in range(n):
        S.assume(v[i] >= 0 if i < n - k else v[i] < 0)
        if i and i != n - k:
            S.assume(v[i - 1] < v[i])
    return v


def vector(S, n, ny, masked, unwrapped=False, bounded=True):
    """One-dimensional coordinates: everything on the longitude dimension moves, the rest stays."""
    S.lazy()
    f = Field(crs=Spherical())
    dy, dx, dt = Dimension('y', ny), Dimension('x', n), Dimension('t', 2)
    k = S.cint('negative', 1, n)
    v = longitudes(S, 'x', n, k)
    if unwrapped:
        v = S.array([v[i] if i < n - k else v[i] + 360 for i in range(n)], 'f')
        S.assume(S.all_([S.not_(S.eq(v[i], 180)) for i in range(n)]))
    xo = nested(v)
    x = Variable('x', value=v, dimensions=[dx], mask=None)
    b = [[i - 1, i + 2] for i in xo]
    if bounded and not unwrapped:
        x.set_bounds(Variable('xb', value=S.array(b, 'f'), dimensions=[dx, 'b']))
    y = Variable('y', value=S.reals('y', ny), dimensions=[dy])
    yo = nested(y.get_value())
    f.add_variable(x)
    f.add_variable(y)
    ref = {}
    for name, dims in [('yx', (dy, dx)), ('xy', (dx, dy)), ('tyx', (dt, dy, dx)), ('x1', (dx,)), ('xt', (dx, dt)), ('ty', (dt, dy))]:
        shp = tuple(d.size for d in dims)
        val, m = S.reals(name, shp), S.bools('m_' + name, shp) if name == masked else None
        ref[name] = ([d.name for d in dims], nested(val), nested(m))
        f.add_variable(Variable('v_' + name, value=val, mask=m, dimensions=dims))
    f.set_x(x, 'x')
    f.set_y(y, 'y')
    if unwrapped:
        f.wrap()
        xo = [i if j < n - k else i - 360 for j, i in enumerate(xo)]
    f.grid.reorder()
    perm = roll(list(range(n)), n - k)
    got = f.grid.x.get_value()
    S.check(S.arr_eq(got, S.array([xo[p] for p in perm], 'f')), 'coordinates')
    S.check(S.all_([got[i] < got[i + 1] for i in range(n - 1)]), 'ascending')
    S.check(S.arr_eq(f.grid.y.get_value(), S.array(yo, 'f')), 'other coordinate kept')
    if bounded and not unwrapped:
        S.check(S.arr_eq(f['xb'].get_value(), S.array([b[p] for p in perm], 'f')), 'bounds')
    for name, (dims, val, m) in ref.items():
        var = f['v_' + name]
        gv, gm = var.get_value(), var.get_mask()
        for idx in np.ndindex(*gv.shape):
            src = tuple(perm[i] if d == 'x' else i for i, d in zip(idx, dims))
            a, c = val, m
            for i in src:
                a, c = a[i], c if c is None else c[i]
            S.check(S.eq(gv[idx], a), 'values of {}'.format(name))
            S.check(S.iff(False if gm is None else gm[idx], bool(c) if c is None else c), 'mask of {}'.format(name))


def matrix(S, n, ny=2):
    """Two-dimensional coordinates: each row has its own jump, or none."""
    S.lazy()
    f = Field(crs=Spherical())
    dy, dx, dt = Dimension('y', ny), Dimension('x', n), Dimension('t', 2)
    ks = [S.cint('negative%d' % r, 0, n) for r in range(ny)]
    S.assume(sum(ks) > 0)
    rows = [nested(longitudes(S, 'x%d' % r, n, ks[r])) for r in range(ny)]
    x = Variable('x', value=S.array(rows, 'f'), dimensions=[dy, dx])
    corner = [[[i - 1, i + 1, i + 1, i - 1] for i in r] for r in rows]
    x.set_bounds(Variable('xb', value=S.array(corner, 'f'), dimensions=[dy, dx, 'c']))
    yv = S.reals('y', (ny, n))
    y = Variable('y', value=S.array(nested(yv), 'f'), dimensions=[dy, dx])
    f.add_variable(x)
    f.add_variable(y)
    val, m = S.reals('d', (2, ny, n)), S.bools('m', (2, ny, n))
    f.add_variable(Variable('d', value=S.array(nested(val), 'f'), mask=m, dimensions=[dt, dy, dx]))
    val, m = nested(val), nested(m)
    yo = nested(yv)
    f.set_x(x, 'x')
    f.set_y(y, 'y')
    S.check(f.grid.wrapped_state == WrappedState.WRAPPED, 'wrapped state')
    f.grid.reorder()
    perms = [roll(list(range(n)), (n - ks[r]) % n) for r in range(ny)]
    S.check(S.arr_eq(f.grid.x.get_value(), S.array([[rows[r][p] for p in perms[r]] for r in range(ny)], 'f')), 'coordinates')
    S.check(S.arr_eq(f.grid.y.get_value(), S.array([[yo[r][p] for p in perms[r]] for r in range(ny)], 'f')), 'other coordinate')
    S.check(S.arr_eq(f['xb'].get_value(), S.array([[corner[r][p] for p in perms[r]] for r in range(ny)], 'f')), 'corners')
    gv, gm = f['d'].get_value(), f['d'].get_mask()
    for t, r, c in np.ndindex(*gv.shape):
        S.check(S.eq(gv[t, r, c], val[t][r][perms[r][c]]), 'values')
        S.check(S.iff(False if gm is None else gm[t, r, c], m[t][r][perms[r][c]]), 'mask')


def array(S, n, m):
    """The permutation itself, for any shift per row."""
    a = S.reals('a', (m, n))
    o = nested(a)
    ks = [S.cint('k%d' % r, 0, n - 1) for r in range(m)]
    reorder_array(ks, a, ['r', 'c'], 'c', 'r')
    S.check(S.arr_eq(a, S.array([roll(o[r], ks[r]) for r in range(m)], 'f')), 'shifted rows')


def refused(S, n):
    """Unwrapped coordinates are not reordered."""
    f = Field(crs=Spherical())
    v = S.reals('x', n, 0, 360)
    o = nested(v)
    f.add_variable(Variable('x', value=v, dimensions=['x']))
    f.add_variable(Variable('y', value=S.array([0.], 'f'), dimensions=['y']))
    f.set_x(f['x'], 'x')
    f.set_y(f['y'], 'y')
    try:
        f.grid.reorder()
        S.check(False, 'refused')
    except ValueError:
        S.check(S.arr_eq(f.grid.x.get_value(), S.array(o, 'f')), 'coordinates kept')


def tasks(tier):
    th = tier == 'thorough'
    out = [(array, {'n': n, 'm': m}) for n, m in [(1, 1), (2, 2), (3, 2), (2, 3), (3, 3)]] + [(refused, {'n': 2})]
    for n in range(1, 6 if th else 5):
        for ny in (1, 2, 3):
            for k, masked in enumerate(['yx', 'xy', 'tyx', 'x1', 'xt', 'ty']):
                if n * ny * (2 if 't' in masked else 1) <= (6 if masked == 'xt' else 8):
                    out.append((vector, {'n': n, 'ny': ny, 'masked': masked, 'unwrapped': bool(k % 2)}))
            out.append((vector, {'n': n, 'ny': ny, 'masked': None, 'unwrapped': True}))
        if n < (5 if th else 4):
            out.append((matrix, {'n': n}))
            if n > 1:
                out.append((matrix, {'n': n, 'ny': 3}))
    return out
