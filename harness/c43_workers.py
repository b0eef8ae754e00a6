"""C43: several workers finish and give the results of one."""
import contextlib
import csv
import datetime
import os

import numpy as np
from ocgis import Dimension, Field, GeometryVariable, Grid, OcgOperations, RequestDataset, TemporalVariable, Variable, vm
from ocgis.constants import WrappedState
from ocgis.driver import csv_
from ocgis.util.helpers import arange_from_dimension, create_unique_global_array
from ocgis.variable.crs import AbstractCRS, Spherical
from ocgis.variable.dimension import create_distributed_dimension
from shapely.geometry import box
from symex import fakenc, ranks
from .c24_tiles import source
from .c33_average import Cell, cells
from .common import nested

FUNCTIONS = ['ocgis.ops.engine.OperationsEngine (all workers)', 'ocgis.conv.base.AbstractCollectionConverter.{__iter__,write}', 'ocgis.conv.nc.NcConverter',
             'ocgis.conv.csv_.CsvConverter', 'ocgis.driver.nc.DriverNetcdf (distributed reads and writes)', 'ocgis.driver.csv_.DriverCSV',
             'ocgis.driver.base.AbstractDriver.write_variable_collection', 'ocgis.vmachine.core.OcgVM', 'ocgis.vmachine.mpi.{OcgDist,get_nonempty_ranks}',
             'ocgis.variable.geom.GeometryVariable.get_unioned', 'ocgis.util.helpers.{arange_from_dimension,create_unique_global_array}',
             'ocgis.spatial.base.{get_extent_global,AbstractXYZSpatialContainer.shape_global,has_mask_global}',
             'ocgis.variable.crs.CoordinateReferenceSystem.get_wrapped_state', 'ocgis.variable.base.Variable.set_string_max_length_global']
BOUNDS = '2 or 3 workers in three orders of turns; operations: files of 2x3-2x4 cells, 2-3 times, 1-2 levels, any values (+-1000), 1-3 cells of the data ' \
         'masked or not; averages: up to 5 geometries split in any listed way, any areas (0.25-50), values and masks; distributed writes: up to 3 ' \
         'parts, one may be empty, along any dimension, any values and coordinates'
OUTSIDE = 'the message library itself (a model with blocking and buffered messages replaces it in both kinds of runs), numbering of the geometries in ' \
          'tables, shapefiles, regridding (not installed), asynchronous netCDF writes, more than 3 workers'
ASSUMPTIONS = ['weights sum exactly (reals for floating point numbers)', 'netCDF files behave as in symex/fakenc.py; replays use the library']

GEOMS = {'box': [99.6, 9.4, 101.4, 11.4], 'corner': [99.6, 9.4, 99.9, 9.9], 'two': [{'geom': box(99.6, 9.6, 100.4, 10.4), 'properties': {'UGID': 3}},
                                                                                 {'geom': box(101.6, 9.6, 102.4, 11.4), 'properties': {'UGID': 5}}]}
GEOMS['far'] = [{'geom': box(99.6, 9.6, 100.4, 10.4), 'properties': {'UGID': 3}}, {'geom': box(101.6, 10.6, 102.4, 11.4), 'properties': {'UGID': 5}}]
GEOMS['missing'] = [{'geom': box(140.6, 9.6, 141.4, 10.4), 'properties': {'UGID': 2}}] + GEOMS['far']
ORDERS = {None: None, 'last': lambda ready: sorted(ready, reverse=True), 'turns': lambda ready: ready[1:] + ready[:1]}
D = datetime.datetime
CASES = {
    'all': {},
    'box': {'geom': GEOMS['box']},
    'corner': {'geom': GEOMS['corner']},
    'clip': {'geom': [99.75, 9.75, 101.25, 11.25], 'spatial_operation': 'clip', 'aggregate': True},
    'aggregate': {'geom': GEOMS['box'], 'aggregate': True},
    'mean': {'calc': [{'func': 'mean', 'name': 'out'}], 'calc_grouping': ['month']},
    'max': {'calc': [{'func': 'max', 'name': 'out'}], 'calc_grouping': ['month'], 'geom': GEOMS['box']},
    'agg_mean': {'calc': [{'func': 'mean', 'name': 'out'}], 'calc_grouping': ['month'], 'geom': GEOMS['box'], 'aggregate': True},
    'eval': {'calc': 'out=2*tas', 'geom': GEOMS['box']},
    'times': {'time_range': [D(2000, 1, 2), D(2000, 2, 2)]},
    'month': {'time_region': {'month': [2]}, 'geom': GEOMS['box']},
    'both': {'geom': GEOMS['two'], 'agg_selection': True},
    'slice': {'slice': [None, None, None, [0, 2], [1, 3]]},
    'snippet': {'snippet': True},
    'level': {'level_range': [1, 1], 'geom': GEOMS['corner']},
    'union': {'geom': GEOMS['far'], 'agg_selection': True, 'aggregate': True},
    'window': {'calc': [{'func': 'moving_window', 'name': 'out', 'kwds': {'k': 3, 'mode': 'valid', 'operation': 'mean'}}]},
    'small': {'optimized_bbox_subset': True, 'geom': GEOMS['box']},
    'sum': {'calc': [{'func': 'sum', 'name': 'out'}], 'calc_grouping': 'all', 'geom': GEOMS['far'], 'agg_selection': True},
    'wrap': {'spatial_wrapping': 'wrap'},
}


def contents(f, names):
    """What a field holds, as nested lists."""
    out = {}
    for n in names:
        v = f[n]
        if isinstance(v, AbstractCRS):
            continue
        m = v.get_mask()
        out[n] = [list(v.dimension_names), v.get_value(), np.zeros(v.shape, dtype=bool) if m is None else np.array(m, dtype=bool), str(v.units)]
    return out


def same(S, a, b, label):
    S.check(sorted(a) == sorted(b), label + ': variables')
    for n in a:
        (da, va, ma, ua), (db, vb, mb, ub) = a[n], b[n]
        S.check(da == db and va.shape == vb.shape, label + ': dimensions of ' + n)
        S.check(np.array_equal(ma, mb) and ua == ub, label + ': mask and units of ' + n)
        for i in np.ndindex(*va.shape):
            if not ma[i]:
                if isinstance(va[i], (str, bytes)):
                    S.check(va[i] == vb[i], label + ': ' + n)
                else:
                    S.check(S.eq(va[i], vb[i]), label + ': ' + n)


def operations(S, case, workers, order=None, ny=2, nx=3, nt=3, levels=0, masked=2, lon=None):
    """The file written by several workers is that written by one."""
    with fakenc.scratch() as d:
        path = os.path.join(d, 'in.nc')
        source(S, path, ['tas'], ny, nx, nt, levels, masked, lon or [100., 101., 102., 103.])

        def op(sub):
            kw = CASES[case]
            return OcgOperations(dataset=RequestDataset(path), output_format='nc', dir_output=os.path.join(d, sub), prefix='p', add_auxiliary_files=False, **kw).execute()
        for sub in ('one', 'several'):
            os.mkdir(os.path.join(d, sub))
        one = op('one')
        outs = ranks.values(ranks.run(workers, lambda r: op('several'), order=ORDERS[order]))
        S.check(all(o == outs[0] for o in outs), 'the same file on every worker')
        a, b = RequestDataset(one).get(), RequestDataset(outs[0]).get()
        S.check(sorted(a) == sorted(b), 'variables')
        S.check(a.crs == b.crs, 'coordinate system')
        same(S, contents(a, sorted(a)), contents(b, sorted(b)), 'file')


class Rows:
    """Collects the rows of tables in place of the csv module."""
    files = {}

    class DictWriter:
        def __init__(self, f, fieldnames):
            self.rows = Rows.files.setdefault(f.name, [])
            if f.mode == 'w':
                self.rows[:] = []
            self.names = list(fieldnames)

        def writeheader(self):
            self.rows.append(self.names)

        def writerow(self, row):
            assert sorted(row) == sorted(self.names)
            self.rows.append(dict(row))


@contextlib.contextmanager
def recorded_rows():
    csv_.csv = Rows
    try:
        yield
    finally:
        csv_.csv = csv


TABLES = {
    'all': {'format': 'csv'},
    'box': {'geom': GEOMS['box']},
    'two': {'geom': GEOMS['two']},
    'far': {'geom': GEOMS['far']},
    'aggregate': {'geom': GEOMS['far'], 'aggregate': True},
    'mean': {'geom': GEOMS['two'], 'calc': [{'func': 'mean', 'name': 'out'}], 'calc_grouping': ['month']},
    'raw': {'geom': GEOMS['far'], 'aggregate': True, 'calc': [{'func': 'max', 'name': 'out'}], 'calc_grouping': ['month'], 'calc_raw': True},
    'missing': {'geom': GEOMS['missing'], 'allow_empty': True},
}


def tables(S, case, workers, order=None, nx=3, nt=2, masked=1, datasets=1):
    """The rows written by several workers are those written by one; geometries are numbered differently."""
    with fakenc.scratch() as d, recorded_rows():
        paths = [os.path.join(d, 'in%d.nc' % k) for k in range(datasets)]
        for k, p in enumerate(paths):
            source(S, p, ['tas', 'pr'][k:k + 1], 2, nx, nt, 0, masked if not k else 0, [100., 101., 102., 103.])

        def op(sub):
            kw = {k: v for k, v in TABLES[case].items() if k != 'format'}
            return OcgOperations(dataset=[RequestDataset(p) if not k else RequestDataset(p, variable='pr', rename_variable='tas') for k, p in enumerate(paths)], output_format='csv', dir_output=os.path.join(d, sub), prefix='p',
                                 add_auxiliary_files=False, **kw).execute()
        for sub in ('one', 'several'):
            os.mkdir(os.path.join(d, sub))
        one = op('one')
        outs = ranks.values(ranks.run(workers, lambda r: op('several'), order=ORDERS[order]))
        S.check(all(o == outs[0] for o in outs), 'the same file on every worker')
        a, b = Rows.files.pop(one), Rows.files.pop(outs[0])
        names = a[0]
        S.check(b[0] == names and len(a) == len(b) and all(isinstance(r, dict) for r in b[1:]), 'one header and all rows')
        value = names[-1]
        keys = [[str([r[k] for k in names if k not in ('GID', value)]) for r in t[1:]] for t in (a, b)]
        S.check(sorted(keys[0]) == sorted(keys[1]), 'keys of the rows')
        for k in set(keys[0]):
            ra, rb = [[r[value] for r, q in zip(t[1:], ks) if q == k] for t, ks in zip((a, b), keys)]
            # Rows of the cells of one time and geometry are in any order: their cell is not in the table.
            left = list(rb)
            for v in ra:
                m = next((i for i, w in enumerate(left) if same_value(S, v, w)), None)
                S.check(m is not None, 'values of the rows')
                left.pop(m)


def same_value(S, v, w):
    if v is None or w is None or isinstance(v, np.ma.core.MaskedConstant) or isinstance(w, np.ma.core.MaskedConstant):
        return v is w
    return bool(S.eq(v, w))


operations.patches = fakenc.patches()
tables.patches = fakenc.patches()


def writes(S, sizes, along='lon', masked=1, two_dim=False, order=None, unlimited=False, fmt='NETCDF4', spatial_mask=False):
    """A file written by several workers holds every part in its place."""
    n, other = sum(sizes), 2
    nt, ny, nx = {'lon': (2, other, n), 'lat': (2, n, other), 'time': (n, other, 2)}[along]
    full = {'time': nt, 'lat': ny, 'lon': nx}
    v = S.reals('v', (nt, ny, nx))
    ref = nested(v)
    m = np.zeros(v.shape, dtype=bool)
    for k in range(masked):
        m[(k * 5) % nt, k % ny, (k * 2 + 1) % nx] = S.cbool('m%d' % k)
    gm = np.zeros((ny, nx), dtype=bool)
    if spatial_mask:
        gm[ny - 1, nx - 1] = True
        gm[0, 0] = S.cbool('g')
        m |= gm
    lon, lat, days = [S.reals(k, (full[k],), lo, hi) for k, lo, hi in (('lon', -179, 179), ('lat', -80, 80), ('time', 0, 3000))]
    if two_dim:
        lon, lat = [S.reals(k + '2', (ny, nx), lo, hi) for k, lo, hi in (('lon', -179, 179), ('lat', -80, 80))]
    lb = S.reals('lb', (nx, 2), -179, 179)
    keep = {k: nested(x) for k, x in (('lon', lon), ('lat', lat), ('time', days), ('lb', lb))}
    starts = np.cumsum((0,) + tuple(sizes))

    with fakenc.scratch() as d:
        path = os.path.join(d, 'out.nc')

        def f(rank):
            sl = {k: slice(None) for k in full}
            sl[along] = slice(int(starts[rank]), int(starts[rank + 1]))
            dims = {k: Dimension(k, size_current=full[k], size=None) if k == 'time' and unlimited and along != 'time' else Dimension(k, full[k]) for k in full}
            empty = sizes[rank] == 0
            dims[along] = create_distributed_dimension(sizes[rank], name=along)
            if empty:
                dims[along].convert_to_empty()
            field = Field(crs=Spherical())
            T, Y, X = (dims[k] for k in ('time', 'lat', 'lon'))

            def var(name, values, ds, cls=Variable, **kw):
                if empty and any(k.name == along for k in ds if not isinstance(k, str)):
                    return cls(name=name, dimensions=ds, dtype=np.float64, **kw)
                return cls(name=name, value=values[tuple(sl.get(getattr(k, 'name', k), slice(None)) for k in ds)], dimensions=ds, **kw)
            bounds = None if two_dim else var('lon_bounds', lb, [X, Dimension('bounds', 2)])
            field.set_grid(Grid(var('lon', lon, [Y, X] if two_dim else [X], **({} if two_dim else {'bounds': bounds})),
                                var('lat', lat, [Y, X] if two_dim else [Y]), crs=Spherical()))
            field.set_time(var('time', days, [T], cls=TemporalVariable, units='days since 2000-01-01', calendar='standard'))
            if spatial_mask and not empty:
                field.grid.set_mask(gm[sl['lat'], sl['lon']].copy())
            mk = {} if empty or not (masked or spatial_mask) else {'mask': m[sl['time'], sl['lat'], sl['lon']].copy()}
            field.add_variable(var('v', v, [T, Y, X], units='K', **mk), is_data=True)
            with vm.scoped_by_emptyable('write', field):
                if not vm.is_null:
                    field.write(path)

        ranks.values(ranks.run(len(sizes), f, order=ORDERS[order]))
        b = RequestDataset(path).get()
        out = b['v']
        S.check(out.shape == (nt, ny, nx) and list(out.dimension_names) == ['time', 'lat', 'lon'] and out.units == 'K', 'shape')
        ov, om = out.get_value(), out.get_mask()
        for i in np.ndindex(*ov.shape):
            S.check((om is not None and bool(om[i])) == bool(m[i]), 'mask')
            S.check(m[i] or S.eq(ov[i], ref[i[0]][i[1]][i[2]]), 'values')
        for k in ('lon', 'lat', 'time'):
            got = b[k].get_value()
            S.check(nested(got) is not None and got.shape == np.shape(keep[k]), 'shape of ' + k)
            for i in np.ndindex(*got.shape):
                want = keep[k]
                for j in i:
                    want = want[j]
                S.check(S.eq(got[i], want), 'values of ' + k)
        if not two_dim:
            got = b.grid.x.bounds.get_value()
            for i, j in np.ndindex(nx, 2):
                S.check(S.eq(got[i, j], keep['lb'][i][j]), 'bounds')
        if spatial_mask:
            gv = b.grid.get_mask()
            S.check(gv is not None and np.array_equal(gv, gm), 'spatial mask')


writes.patches = fakenc.patches()


def averages(S, sizes, nt=2, kind='box', gmask=0, vmask=0, vkind='f', areas=False, order='tx', root=0):
    """The spatial average of geometries on several workers is that of all of them."""
    if vkind == 'i':
        S.int_storage()
    n = sum(sizes)
    geoms, area = cells((n,), kind)
    if areas:
        a = S.reals('area', (n,), 0.25, 50)
        for i in geoms:
            geoms[i], area[i] = Cell(geoms[i]), a[i]
            geoms[i].given = a[i]
    gm = np.array([S.cbool('gm%d' % i) if i < gmask else False for i in range(n)])
    S.assume(not gm.all())
    v = S.reals('tas', (nt, n), -1000, 1000) if vkind == 'f' else S.ints('tas', (nt, n), -50, 50)
    ref = nested(v)
    m = np.zeros((nt, n), dtype=bool)
    # Masked geometries have masked data.
    m[:, gm] = True
    for k in range(vmask):
        m[k % nt, k] |= S.cbool('m%d' % k)
    starts = np.cumsum((0,) + tuple(sizes))

    def f(rank):
        sel = slice(starts[rank], starts[rank + 1])
        x = create_distributed_dimension(sizes[rank], name='x')
        dims = [Dimension('t', nt), x] if nt else [x]
        gv = np.empty(sizes[rank], dtype=object)
        for i in range(sizes[rank]):
            gv[i] = geoms[starts[rank] + i,]
        field = Field(crs=Spherical())
        field.set_geom(GeometryVariable(name='geom', value=gv, mask=gm[sel].copy() if gmask else None, dimensions=[x], crs=Spherical()))
        values, mask = v[:, sel], m[:, sel].copy()
        if order == 'xt':
            values, mask, dims = values.T, mask.T.copy(), dims[::-1]
        field.add_variable(Variable('tas', value=values, mask=mask if gmask or vmask else None, dimensions=dims,
                                    **({'dtype': np.dtype(np.int32)} if vkind == 'i' else {})), is_data=True)
        return field.geom.get_unioned(spatial_average=field.data_variables, root=root)

    outs = ranks.values(ranks.run(len(sizes), f))
    for r, o in enumerate(outs):
        S.check((o is None) == (r != root), 'result on the root only')
    u = outs[root]
    S.check(u.shape == (1,), 'one geometry')
    if not areas and kind != 'point':
        S.check(abs(u.get_value()[0].area - sum(area[i,] for i in range(n) if not gm[i])) < 1e-9, 'union of the unmasked geometries')
    out = u.parent['tas']
    S.check(out.shape == (nt, 1), 'dimensions of the average')
    ov, om = out.get_value(), out.get_mask()
    for t in range(nt):
        num = den = 0
        live = [i for i in range(n) if not m[t, i]]
        for i in live:
            num, den = num + area[i,] * ref[t][i], den + area[i,]
        S.check((om is not None and bool(om[t, 0])) == (not live), 'mask of the average')
        if live:
            S.check(S.eq(ov[t, 0] * den, num), 'weighted mean of all workers')


def helpers(S, sizes, what, order=None):
    """Values agreed on by all workers describe the whole."""
    n = sum(sizes)
    starts = np.cumsum((0,) + tuple(sizes))
    P = len(sizes)
    if what == 'unique':
        S.int_storage()
        v = S.ints('v', (n,), 0, 4)
        ref = list(v)
        outs = ranks.values(ranks.run(P, lambda r: create_unique_global_array(v[starts[r]:starts[r + 1]]), order=ORDERS[order]))
        got = [e for o in outs for e in o]
        for i, e in enumerate(got):
            S.check(S.or_(*[S.eq(e, k) for k in ref]), 'values of the input')
            S.check(S.and_(True, *[S.not_(S.eq(e, k)) for k in got[:i]]), 'every value on one worker')
        for k in ref:
            S.check(S.or_(*[S.eq(e, k) for e in got]), 'every value kept')
        return
    if what == 'range':
        start = S.cint('start', 0, 3)
        outs = ranks.values(ranks.run(P, lambda r: list(arange_from_dimension(create_distributed_dimension(sizes[r], name='x'), start=start)), order=ORDERS[order]))
        S.check([e for o in outs for e in o] == [start + i for i in range(n)], 'consecutive numbers')
        return
    x = S.reals('x', (n,), -179, 359)
    for i in range(n - 1):
        S.assume(x[i] < x[i + 1])
    if what == 'wrapped':
        S.assume(S.or_(x[0] >= 0, x[n - 1] <= 180))
    y = S.reals('y', (2,), -80, 80)
    S.assume(y[0] < y[1])
    text = [S.choice('t%d' % i, ['a', 'abc']) for i in range(n)] if what == 'text' else ['a'] * n
    has = [S.cbool('has%d' % r) for r in range(P)] if what == 'mask' else [False] * P
    xr, yr = list(x), list(y)

    def f(rank):
        d, Y = create_distributed_dimension(sizes[rank], name='x', src_idx=(int(starts[rank]), int(starts[rank + 1]))), Dimension('y', 2)
        field = Field(crs=Spherical())
        field.set_grid(Grid(Variable('lon', value=x[starts[rank]:starts[rank + 1]], dimensions=d), Variable('lat', value=y, dimensions=Y), crs=Spherical()))
        g = field.grid
        if what == 'extent':
            return g.extent_global
        if what == 'shape':
            return g.shape_global
        if what == 'wrapped':
            return field.wrapped_state
        if what == 'mask':
            if has[rank]:
                g.set_mask(np.zeros((2, sizes[rank]), dtype=bool))
            return g.has_mask_global
        s = Variable('s', value=text[starts[rank]:starts[rank + 1]], dimensions=d, dtype=object)
        s.set_string_max_length_global()
        return s.string_max_length_global

    outs = ranks.values(ranks.run(P, f, order=ORDERS[order]))
    for o in outs:
        if what == 'extent':
            S.check(S.and_(S.eq(o[0], xr[0]), S.eq(o[2], xr[-1]), S.eq(o[1], yr[0]), S.eq(o[3], yr[1])), 'extent of all workers')
        elif what == 'shape':
            S.check(tuple(o) == (2, n), 'shape of all workers')
        elif what == 'mask':
            S.check(bool(o) == any(has), 'a mask on any worker')
        elif what == 'text':
            S.check(o == max(len(t) for t in text), 'longest text')
        else:
            S.check(S.iff(o == WrappedState.UNWRAPPED, xr[-1] > 180), 'unwrapped with longitudes over 180')
            S.check(S.iff(o == WrappedState.WRAPPED, S.and_(xr[-1] <= 180, xr[0] < 0)), 'wrapped with negative longitudes')


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    for k, case in enumerate(CASES):
        kw = {'lon': [178., 180., 182.]} if case == 'wrap' else {'levels': 2} if case == 'level' else {}
        if case == 'window':
            kw['masked'] = 0
        out.append((operations, {'case': case, 'workers': 2, 'order': [None, 'last', 'turns'][k % 3], **kw}))
        if deep or k % 2:
            kw = {'masked': 3 if deep else 1, **kw}
            out.append((operations, {'case': case, 'workers': 3, 'order': ['last', 'turns', None][k % 3], 'nx': 4 if case != 'wrap' else 3, **kw}))
    for kw in [{'sizes': (1, 2), 'areas': True, 'vmask': 1}, {'sizes': (2, 1), 'gmask': 3, 'nt': 1}, {'sizes': (1, 1), 'kind': 'point', 'vmask': 2},
               {'sizes': (2, 1, 1), 'vmask': 4}, {'sizes': (1, 2), 'vkind': 'i', 'vmask': 1}, {'sizes': (2, 2), 'order': 'xt', 'vmask': 2},
               {'sizes': (1, 2), 'root': 1, 'kind': 'multi', 'gmask': 2}]:
        out.append((averages, kw))
    for what in ['extent', 'shape', 'wrapped', 'mask', 'text']:
        for sizes in [(1, 2), (2, 1, 1)]:
            out.append((helpers, {'sizes': sizes, 'what': what}))
    for sizes in [(2, 1), (1, 2), (1, 1, 1)]:
        out.append((helpers, {'sizes': sizes, 'what': 'unique'}))
        out.append((helpers, {'sizes': sizes, 'what': 'range'}))
    for kw in [{'sizes': (1, 2)}, {'sizes': (2, 1), 'along': 'lat', 'order': 'last'}, {'sizes': (1, 1, 1), 'along': 'time', 'order': 'turns'}, {'sizes': (2, 0, 1)},
               {'sizes': (1, 1), 'two_dim': True, 'along': 'lat'}, {'sizes': (1, 2), 'spatial_mask': True}, {'sizes': (2, 1), 'unlimited': True, 'masked': 2},
               {'sizes': (0, 1, 1), 'along': 'lat', 'spatial_mask': True, 'masked': 0}]:
        out.append((writes, kw))
    for k, case in enumerate(TABLES):
        out.append((tables, {'case': case, 'workers': 2 + k % 2, 'order': [None, 'last', 'turns'][k % 3]}))
        if case in ('far', 'box'):
            out.append((tables, {'case': case, 'workers': 3 - k % 2, 'datasets': 2, 'order': [None, 'last', 'turns'][k % 3]}))
    if deep:
        out += [(averages, {'sizes': (2, 2, 1), 'areas': True, 'vmask': 2, 'gmask': 2}), (averages, {'sizes': (2, 1), 'gmask': 3, 'vmask': 3}),
                (helpers, {'sizes': (2, 1, 1), 'what': 'unique'}), (helpers, {'sizes': (2, 2), 'what': 'unique'})]
    return out
