"""C33: spatial averages are area-weighted means of the unmasked cells."""
import numpy as np
from ocgis import Dimension, Field, GeometryVariable, Grid, Variable
from ocgis.variable.crs import Spherical
from shapely.geometry import MultiPolygon, Point, Polygon, box

from .common import nested

FUNCTIONS = ['ocgis.variable.geom.GeometryVariable.{get_unioned,area,weights}', 'ocgis.util.helpers.get_swap_chain',
             'ocgis.collection.field.Field.set_abstraction_geom', 'ocgis.spatial.grid.Grid.get_abstraction_geometry',
             'ocgis.variable.base.Variable.{__getitem__,get_masked_value,set_dimensions,allocate_value}']
BOUNDS = 'up to 6 geometries in one or two dimensions, up to 5 dimensions in any order, any values (+-1000) and masks of the data, any masks of ' \
         'the geometries, cell areas from a fixed set or any positive numbers (2-4 cells)'
OUTSIDE = 'the union of geometries itself (GEOS), more than one worker'
ASSUMPTIONS = ['weights sum exactly (reals for floating point numbers)']


class Cell(Polygon):
    """A polygon with an area given by the check."""
    given = None

    @property
    def area(self):
        return self.given if self.given is not None else Polygon(self).area


def cells(shape, kind):
    """Geometries and their areas: one row per line of the grid, neighbours do not overlap."""
    out, area = {}, {}
    for i in np.ndindex(*shape):
        y, x = (0,) * (2 - len(shape)) + i
        w, h = 1. + x % 2, 1. + y
        if kind == 'point':
            out[i], area[i] = Point(3. * x, 8. * y), 1
        elif kind == 'multi':
            out[i] = MultiPolygon([box(3. * x, 8. * y, 3. * x + w, 8. * y + h), box(3. * x, 8. * y + 4, 3. * x + w, 8. * y + 4 + h)])
            area[i] = 2 * w * h
        else:
            out[i], area[i] = box(3. * x, 8. * y, 3. * x + w, 8. * y + h), w * h
    return out, area


def average(S, gdims, sizes, vdims, kind='box', gmask=0, vmask=0, vkind='f', areas=False, second=None):
    if vkind == 'i':
        S.int_storage()
    dd = {k: Dimension(k, size=sizes[k]) for k in sizes}
    shape = tuple(sizes[d] for d in gdims)
    geoms, area = cells(shape, kind)
    if areas:
        a = S.reals('area', shape, 0.25, 50)
        for i in geoms:
            g = Cell(geoms[i])
            g.given = area[i] = a[i]
            geoms[i] = g
    gm = np.zeros(shape, dtype=bool)
    for k, i in enumerate(np.ndindex(*shape)):
        if k < gmask:
            gm[i] = S.cbool('gm%d' % k)
    S.assume(not gm.all())
    gv = np.empty(shape, dtype=object)
    for i, g in geoms.items():
        gv[i] = g
    f = Field(name='fld', crs=Spherical())
    f.set_geom(GeometryVariable(name='geom', value=gv, mask=gm if gmask else None, dimensions=[dd[d] for d in gdims], crs=Spherical()))
    ref = {}
    for name, vd in [('tas', vdims)] + ([('pr', second)] if second else []):
        vs = tuple(sizes[d] for d in vd)
        v = S.reals(name, vs, -1000, 1000) if vkind == 'f' else S.ints(name, vs, -50, 50)
        m = np.zeros(vs, dtype=bool)
        for k, i in enumerate(np.ndindex(*vs)):
            if k < vmask:
                m[i] = S.cbool('%s.m%d' % (name, k))
            # Masked geometries have masked data.
            if gm[tuple(i[vd.index(d)] for d in gdims)]:
                m[i] = True
        ref[name] = v, m, vd
        f.add_variable(Variable(name, value=v, mask=m if vmask or gmask else None, dimensions=[dd[d] for d in vd], attrs={'units': 'K'},
                                **({'dtype': np.dtype(np.int32)} if vkind == 'i' else {})), is_data=True)
    u = f.geom.get_unioned(spatial_average=f.data_variables)
    g = u.parent
    S.check(u.shape == (1,), 'one geometry')
    if not areas:
        total = sum(area[i] for i in area if not gm[i])
        S.check(kind == 'point' or abs(u.get_value()[0].area - total) < 1e-9, 'union of the unmasked geometries')
    for name, (v, m, vd) in ref.items():
        out = g[name]
        rest = [d for d in vd if d not in gdims]
        S.check(list(out.dimension_names) == rest + list(u.dimension_names), 'dimensions')
        S.check(out.attrs.get('units') == 'K' and name in [k.name for k in g.data_variables], 'metadata')
        ov, om = out.get_value(), out.get_mask()
        for j in np.ndindex(*[sizes[d] for d in rest]):
            num, den, members = 0, 0, 0
            for i in np.ndindex(*shape):
                full = tuple(j[rest.index(d)] if d in rest else i[gdims.index(d)] for d in vd)
                if not m[full]:
                    num, den = num + area[i] * v[full], den + area[i]
                    members += 1
            masked = False if om is None else bool(om[j + (0,)])
            S.check(masked == (members == 0), 'mask')
            if members:
                r = ov[j + (0,)]
                S.check(S.eq(r * den, num), 'weighted mean')
    # The source is unchanged.
    for name, (v, m, vd) in ref.items():
        src = f[name]
        S.check(list(src.dimension_names) == list(vd) and f.geom.shape == shape, 'source dimensions')
        sv, sm = src.get_value(), src.get_mask()
        for i in np.ndindex(*sv.shape):
            S.check(S.eq(sv[i], v[i]), 'source values')
            S.check((False if sm is None else bool(sm[i])) == bool(m[i]), 'source masks')


def grid(S, ny, nx, vdims, masked, two_dim=False):
    """The same through a field with a grid: cells from the bounds, a spatial mask and data masks."""
    sizes = {'y': ny, 'x': nx, 'time': 2}
    dd = {k: Dimension(k, size=n) for k, n in sizes.items()}
    xb, yb = [0., 1., 3., 7.][:nx + 1], [0., 2., 3., 7.][:ny + 1]
    var = lambda n, b, d: Variable(n, value=[(p + q) / 2 for p, q in zip(b, b[1:])], dimensions=dd[d],
                                   bounds=Variable(n + '_b', value=list(zip(b, b[1:])), dimensions=[dd[d], 'bounds']))
    f = Field(name='fld', crs=Spherical())
    f.set_grid(Grid(var('lon', xb, 'x'), var('lat', yb, 'y')))
    if two_dim:
        f.grid.expand()
    gm = np.zeros((ny, nx), dtype=bool)
    for k, i in enumerate(np.ndindex(ny, nx)):
        if k < masked:
            gm[i] = S.cbool('gm%d' % k)
    S.assume(not gm.all())
    v = S.reals('tas', tuple(sizes[d] for d in vdims), -1000, 1000)
    f.add_variable(Variable('tas', value=v, dimensions=[dd[d] for d in vdims]), is_data=True)
    if masked:
        f.grid.set_mask(gm, cascade=True)
    f.set_abstraction_geom()
    g = f.geom.get_unioned(spatial_average='tas').parent
    for t in range(2 if 'time' in vdims else 1):
        num = den = 0
        for y, x in np.ndindex(ny, nx):
            if not gm[y, x]:
                a = (xb[x + 1] - xb[x]) * (yb[y + 1] - yb[y])
                i = tuple({'y': y, 'x': x, 'time': t}[d] for d in vdims)
                num, den = num + a * v[i], den + a
        S.check(S.eq(g['tas'].get_value().flatten()[t] * den, num), 'weighted mean of the cells')


def tasks(tier):
    th = tier == 'thorough'
    s = {'time': 2, 'level': 2, 'y': 2, 'x': 3, 'n': 4}
    out = []

    def add(gdims, vdims, **kw):
        out.append((average, dict({'gdims': list(gdims), 'vdims': list(vdims), 'sizes': s}, **kw)))

    YX = ('y', 'x')
    for vd in (('time', 'y', 'x'), ('y', 'x', 'time'), ('x', 'time', 'y'), ('time', 'x', 'y'), ('time', 'level', 'y', 'x'), ('x', 'level', 'y', 'time')):
        add(YX, vd, vmask=3, gmask=2)
    for vd in (('y', 'x'), ('x', 'y')):
        add(YX, vd, vmask=3, sizes=dict(s, x=2))
        add(YX, vd, gmask=2, sizes=dict(s, x=2))
        add(YX, vd, gmask=2, vmask=0, sizes=dict(s, y=1, x=3), areas=True)
        add(YX, ('time',) + vd, sizes=dict(s, x=2), vmask=6)
    for kind in ('point', 'multi'):
        add(('n',), ('time', 'n'), kind=kind, vmask=3, gmask=2)
        add(('n',), ('n',), kind=kind, vmask=2, gmask=1, sizes=dict(s, n=3))
    add(('n',), ('n', 'time'), vmask=5, sizes=dict(s, n=3))
    add(('n',), ('time', 'n'), vkind='i', vmask=2)
    add(YX, ('y', 'time', 'x'), vkind='i', gmask=2)
    add(('n',), ('n',), vkind='i', sizes=dict(s, n=3))
    add(YX, ('time', 'y', 'x'), second=['level', 'x', 'time', 'y'], vmask=2)
    add(YX, ('y', 'x'), second=['x', 'time', 'y'], vmask=1, sizes=dict(s, x=2))
    add(('n',), ('time', 'n'), areas=True, vmask=4, sizes=dict(s, n=3))
    add(('n',), ('n',), areas=True, vmask=2, sizes=dict(s, n=3))
    for two_dim in (False, True):
        out.append((grid, {'ny': 2, 'nx': 3, 'vdims': ['time', 'y', 'x'], 'masked': 4, 'two_dim': two_dim}))
        out.append((grid, {'ny': 2, 'nx': 2, 'vdims': ['x', 'y'], 'masked': 2, 'two_dim': two_dim}))
    if th:
        for vd in (('y', 'x'), ('x', 'y')):
            add(YX, vd, gmask=2, vmask=1, sizes=dict(s, x=2), areas=True)
        import itertools
        for vd in itertools.permutations(('time', 'level', 'y', 'x')):
            add(YX, vd, vmask=5, gmask=4)
        add(('n',), ('time', 'n'), areas=True, vmask=5, gmask=2)
    return out
