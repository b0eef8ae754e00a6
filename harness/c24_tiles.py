"""C24: a computation done tile by tile gives the result of the computation done at once."""
import datetime
import os

import numpy as np
from ocgis import Dimension, Field, Grid, OcgOperations, RequestDataset, TemporalVariable, Variable
from ocgis.calc import tile
from ocgis.util import large_array
from ocgis.variable.crs import Spherical
from shapely.geometry import Polygon, box
from symex import fakenc

FUNCTIONS = ['ocgis.calc.tile.{get_tile_schema,get_slices}', 'ocgis.util.large_array.{compute,set_variable_spatial_mask}',
             'ocgis.ops.core.OcgOperations.execute', 'ocgis.ops.engine.OperationsEngine (slices, time and level subsets, optimizations)',
             'ocgis.calc.engine.CalculationEngine', 'ocgis.conv.nc.NcConverter', 'ocgis.driver.nc (writing and reading)']
BOUNDS = 'tile schemas: up to 7 rows and columns, tiles up to 8, origin up to 2; computations: up to 3x4 cells, 3-4 time steps in two months, ' \
         'up to 2 levels, any values (+-1000), masks of three elements, tiles of 1 to 4 cells, with and without the cached fields'
OUTSIDE = 'regridding, the netCDF library itself, progress callbacks'
ASSUMPTIONS = ['symbolic runs use an in-memory model of the netCDF4 library (symex/fakenc.py); replayed runs use the real library on real files']

GEOMS = {'box': [100.4, 9.4, 102.6, 12.0], 'edge': [98.0, 0.0, 100.4, 30.0], 'polygon': Polygon([(99.6, 9.6), (102.2, 9.6), (99.6, 12.2)]),
         'right': [101.6, 9.4, 103.4, 10.6], 'upper': [99.0, 10.6, 101.4, 12.6],
         'two': [{'geom': box(99.6, 9.6, 100.4, 10.4)}, {'geom': box(101.6, 10.6, 103.4, 11.4)}]}
LON, LAT = [100., 101., 102., 103.], [10., 11., 12.]
DAYS = [0., 1., 31., 33.]
MONTH = [1, 1, 2, 2]


def selected(geom, ny, nx):
    """The cells whose centres or areas (one degree wide) touch the selection, from the definition of each geometry."""
    out = np.zeros((ny, nx), dtype=bool)
    for i in range(ny):
        for j in range(nx):
            x, y = LON[j], LAT[i]
            x0, x1, y0, y1 = x - .5, x + .5, y - .5, y + .5
            if geom is None:
                out[i, j] = True
            elif geom == 'polygon':
                out[i, j] = x1 > 99.6 and y1 > 9.6 and (max(x0, 99.6) + max(y0, 9.6) < 111.8)
            else:
                boxes = [g['geom'].bounds for g in GEOMS['two']] if geom == 'two' else [GEOMS[geom]]
                out[i, j] = any(x1 > b[0] and x0 < b[2] and y1 > b[1] and y0 < b[3] for b in boxes)
    return out


def source(S, path, names, ny, nx, nt, levels, masked, lon=LON):
    f = Field(name='fld', crs=Spherical())
    T, Y, X, L = (Dimension(n, size=k) for n, k in (('time', nt), ('lat', ny), ('lon', nx), ('plev', max(levels, 1))))
    bnd = lambda n, c, d: Variable(n, value=[[v - .5, v + .5] for v in c], dimensions=[d, 'bounds'])
    f.set_grid(Grid(Variable('lon', value=lon[:nx], dimensions=X, bounds=bnd('lon_bounds', lon[:nx], X), units='degrees_east'),
                    Variable('lat', value=LAT[:ny], dimensions=Y, bounds=bnd('lat_bounds', LAT[:ny], Y), units='degrees_north')))
    f.set_time(TemporalVariable(name='time', value=DAYS[:nt], dimensions=T, units='days since 2000-01-01', calendar='standard'))
    if levels:
        f.set_level(Variable('plev', value=np.arange(1., levels + 1), dimensions=L, units='hPa', attrs={'axis': 'Z'}))
    ref = {}
    for n in names:
        shape = (nt,) + ((levels,) if levels else ()) + (ny, nx)
        v = S.reals(n, shape, -1000, 1000)
        m = np.zeros(shape, dtype=bool)
        if n == names[0]:
            for k in range(masked):
                cell = list(np.ndindex(*shape[1:]))[(k * 5) % int(np.prod(shape[1:]))]
                m[(k % 2,) + cell] = S.cbool('m%d' % k)
        f.add_variable(Variable(n, value=v, mask=m if masked else None, dimensions=[T] + ([L] if levels else []) + [Y, X], units='K'), is_data=True)
        ref[n] = v, m
    f.write(path)
    return ref


def expected(S, ref, calc, groups, times, levels, sel):
    """Values and masks (None: masked) by definition, for every group, level and cell."""
    out = {}
    names = list(ref)
    v0 = ref[names[0]][0]
    for g, group in enumerate(groups):
        steps = [t for t in group if t in times]
        for i in np.ndindex(*v0.shape[1:]):
            if levels is not None and i[0] not in levels:
                continue
            cell = i if levels is None else (levels.index(i[0]),) + i[1:]
            values = {n: [v[(t,) + i] for t in steps if not m[(t,) + i]] for n, (v, m) in ref.items()}
            key = (g,) + cell
            if not sel[i[-2:]] or min(len(k) for k in values.values()) == 0:
                out[key] = None
            elif calc == 'mean':
                out[key] = S.sum_(values[names[0]]) / len(values[names[0]])
            elif calc == 'max':
                a = values[names[0]]
                out[key] = a[0] if len(a) == 1 else S.max(*a)
            elif calc == 'sum':
                out[key] = S.sum_(values[names[0]])
            elif calc == 'two':
                out[key] = values['tas'][0] + 2 * values['pr'][0]
            elif calc == 'twice':
                out[key] = 2 * values['tas'][0]
    return out


def tiles(S, calc, tdim, ny=3, nx=4, nt=4, levels=0, geom=None, masked=2, opt=True, time_range=None, time_region=None, level_range=None,
          grouping=('month',), reorder=False):
    names = ['tas', 'pr'] if calc == 'two' else ['tas']
    with fakenc.scratch() as d:
        path = os.path.join(d, 'in.nc')
        lon = [0., 90., 180., 270.] if reorder else LON
        ref = source(S, path, names, ny, nx, nt, levels, masked, lon)
        times, months, lev = list(range(nt)), None, list(range(levels)) if levels else None
        kw = {}
        if time_range is not None:
            a, b = time_range
            times = [t for t in times if a <= DAYS[t] <= b]
            kw['time_range'] = [datetime.datetime(2000, 1, 1) + datetime.timedelta(k) for k in (a, b)]
        if time_region is not None:
            kw['time_region'] = {'month': [time_region]}
            times = [t for t in times if MONTH[t] == time_region]
        if level_range is not None:
            lev = [k for k in lev if level_range[0] <= k + 1 <= level_range[1]]
            kw['level_range'] = list(level_range)
        if reorder:
            kw.update(spatial_wrapping='wrap', spatial_reorder=True)
            lon = [-90., 0., 90., 180.]
        if geom:
            kw['geom'] = GEOMS[geom]
            kw['agg_selection'] = geom == 'two'
        if calc == 'two':
            c, grouping = 'out=tas+2*pr', None
        elif calc == 'twice':
            c, grouping = 'out=2*tas', None
        else:
            c = [{'func': calc, 'name': 'out'}]
        if grouping is None:
            groups = [[t] for t in times]
        elif list(grouping) == ['month']:
            groups = [g for g in ([t for t in times if MONTH[t] == k] for k in (1, 2)) if g]
        else:
            groups = [times]
        ds = RequestDataset(path, variable=names[0] if calc != 'two' else names)
        make = lambda sub, fmt: OcgOperations(dataset=ds, calc=c, calc_grouping=list(grouping) if grouping and grouping != 'all' else grouping,
                                              output_format=fmt, dir_output=os.path.join(d, sub), prefix='p', **kw)
        for sub in ('tiled', 'whole'):
            os.mkdir(os.path.join(d, sub))
        files = {'tiled': large_array.compute(make('tiled', 'nc'), tdim, use_optimizations=opt), 'whole': make('whole', 'nc').execute()}
        sel = selected(geom, ny, nx)
        rows, cols = np.flatnonzero(sel.any(axis=1)), np.flatnonzero(sel.any(axis=0))
        rows, cols = range(rows[0], rows[-1] + 1), range(cols[0], cols[-1] + 1)
        want = expected(S, ref, calc, groups, times, lev, sel)
        fields = {k: RequestDataset(v).get() for k, v in files.items()}
        shape = (len(groups),) + ((len(lev),) if levels else ()) + (len(rows), len(cols))
        for k, f in fields.items():
            S.check([float(v) for v in f.x.get_value()] == [lon[j] for j in cols] and [float(v) for v in f.y.get_value()] == [LAT[i] for i in rows],
                    k + ': coordinates')
            v, m = f['out'].get_value(), f['out'].get_mask()
            S.check(v.shape == shape, k + ': shape')
            for i in np.ndindex(*shape):
                w = want[i[:-2] + (rows[i[-2]], (cols[i[-1]] - 1) % nx if reorder else cols[i[-1]])]
                S.check((False if m is None else bool(m[i])) == (w is None), k + ': mask')
                if w is not None:
                    S.check(S.eq(v[i], w), k + ': value')
            if geom and not all(sel[i, j] for i in rows for j in cols):
                gm = f.grid.get_mask()
                S.check(gm is not None and all(bool(gm[a, b]) != bool(sel[i, j]) for a, i in enumerate(rows) for b, j in enumerate(cols)),
                        k + ': spatial mask')
        a, b = fields['tiled'], fields['whole']
        S.check(set(a) == set(b), 'same variables')
        S.check(a.time.get_value().tolist() == b.time.get_value().tolist(), 'same times')
        S.check(a.time.has_bounds == b.time.has_bounds, 'same time bounds')
        if a.time.has_bounds:
            S.check(a.time.bounds.get_value().tolist() == b.time.bounds.get_value().tolist(), 'same time bounds')


def schema(S, nmax, tmax, omax):
    nrow, ncol = S.cint('nrow', 1, nmax), S.cint('ncol', 1, 3)
    tdim = S.cint('tdim', 1, tmax)
    o = S.cint('origin', 0, omax)
    S.assume(o < nrow and o < ncol)
    r, c = S.int('r', 0, nmax), S.int('c', 0, 3)
    S.assume(S.and_(r >= o, r < nrow, c >= o, c < ncol))
    t = tile.get_tile_schema(nrow, ncol, tdim, origin=o)
    S.check(list(t) == list(range(len(t))), 'numbering')
    hit = [S.and_(r >= int(k['row'][0]), r < int(k['row'][1]), c >= int(k['col'][0]), c < int(k['col'][1])) for k in t.values()]
    S.check(S.eq(S.count(hit), 1), 'every cell in exactly one tile')
    for k in t.values():
        for n, s in (('row', nrow), ('col', ncol)):
            S.check(o <= k[n][0] < k[n][1] <= s and k[n][1] - k[n][0] <= tdim, 'size of the tile')


tiles.patches = fakenc.patches()


def tasks(tier):
    th = tier == 'thorough'
    out = [(schema, {'nmax': 9 if th else 7, 'tmax': 10 if th else 8, 'omax': 2})]

    def add(calc, tdim, **kw):
        out.append((tiles, dict({'calc': calc, 'tdim': tdim}, **kw)))

    for opt in (True, False):
        for tdim in (1, 2, 3, 4) if th else (2, 3):
            add('mean', tdim, opt=opt)
            for g in GEOMS:
                add('sum' if g == 'box' else 'mean', tdim, opt=opt, geom=g)
        add('max', 2, opt=opt, masked=2, grouping='all')
        add('mean', 2, opt=opt, time_range=(0.5, 31.5))
        add('mean', 2, opt=opt, time_region=2)
        add('mean', 2, opt=opt, time_range=(0.5, 40), geom='polygon')
        add('mean', 2, opt=opt, levels=2, ny=2, nx=3, nt=3)
        add('mean', 2, opt=opt, levels=2, ny=2, nx=3, nt=3, level_range=(2, 3), masked=3)
        add('two', 2, opt=opt, nt=2)
        add('mean', 3, opt=opt, reorder=True)
        add('two', 2, opt=opt, nt=3, geom='box', time_range=(0.5, 40))
        add('twice', 3, opt=opt, nt=2, geom='polygon')
    add('mean', 1, ny=2, nx=2)
    add('mean', 4)
    return out
