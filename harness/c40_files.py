"""C40: fields written to netCDF files and read back are the same fields."""
import datetime
import os

import numpy as np
from ocgis import Dimension, Field, Grid, RequestDataset, TemporalVariable, Variable
from ocgis.variable.crs import CFLambertConformal, Spherical, WGS84
from symex import fakenc

FUNCTIONS = ['ocgis.collection.field.Field.write', 'ocgis.driver.nc.DriverNetcdfCF.{write_field,_get_field_write_target_,create_dimension_map,'
             'get_data_variable_names,create_field}', 'DriverNetcdf.{write_variable,_write_variable_collection_main_,get_metadata}',
             'ocgis.driver.nc.{parse_metadata,update_group_metadata,init_variable_using_metadata_for_netcdf,get_value_from_request_dataset,'
             'get_variable_value,create_dimension_or_pass,get_crs_variable}', 'ocgis.driver.request.core.RequestDataset.get',
             'ocgis.variable.base.{Variable.set_value,SourcedVariable,get_slice_sequence_using_local_bounds}']
BOUNDS = 'up to 3 elements per dimension, up to 5 dimensions, any values (+-1000) and any masks of up to three elements per variable'
OUTSIDE = 'the netCDF and HDF5 libraries themselves, packed variables, multi-file data sets, variable-length types, data equal to the fill value, ' \
          'parallel writes, rounding of single precision data'
ASSUMPTIONS = ['symbolic runs use an in-memory model of the netCDF4 library (symex/fakenc.py); every replayed run uses the real library on real '
               'files, and a difference is reported']

CRS = {'spherical': Spherical, 'wgs84': WGS84, 'lambert': lambda: CFLambertConformal(
    standard_parallel=[30., 60.], longitude_of_central_meridian=-97., latitude_of_projection_origin=47.5, false_easting=325000.,
    false_northing=2575000., units='m')}


class Source(object):
    """A field and what its variables are meant to hold."""

    def __init__(self, S, sizes, prefix=''):
        self.prefix = prefix
        self.S, self.sizes, self.ref = S, sizes, {}
        self.dims = {k: Dimension(k, size=n) for k, n in sizes.items()}

    def variable(self, name, dims, kind='f', mask=0, cls=Variable, attrs=None, **kw):
        shape = tuple(self.sizes[d] for d in dims)
        if isinstance(kind, str) and kind == 'f':
            v = self.S.reals(self.prefix + name, shape, -1000, 1000)
        elif isinstance(kind, str) and kind == 'i':
            v = self.S.ints(self.prefix + name, shape, -100, 100)
        else:
            v = kind
        m = np.zeros(shape, dtype=bool)
        for k, i in enumerate(np.ndindex(*shape)):
            if k < mask:
                m[i] = self.S.cbool('mask_%s_%d' % (self.prefix + name, k))
        get = (lambda i: v[i]) if not isinstance(v, list) else (lambda i: v[i[0]])
        self.ref[name] = ({i: get(i) for i in np.ndindex(*shape)}, {i: bool(m[i]) for i in np.ndindex(*shape)}, shape, tuple(dims),
                          dict(attrs or {}), kw.get('units'))
        return cls(name=name, value=v, mask=m if mask else None, dimensions=[self.dims[d] for d in dims], attrs=attrs, **kw)


def same_variable(S, v, ref, label):
    rv, rm, shape, dims, attrs, units = ref
    if label == 'name':
        # Strings are stored as rows of characters.
        S.check([x.name for x in v.dimensions] == [dims[0], 'name_ocgis_slen'], 'name: dimensions')
        text = [b''.join(np.ma.getdata(r).astype('S1').tolist()).decode() for r in v.get_value()]
        S.check(text == [rv[i] for i in sorted(rv)], 'name: value')
        return
    S.check(tuple(x.name for x in v.dimensions) == dims and v.shape == shape, label + ': dimensions')
    value, mask = v.get_value(), v.get_mask()
    for i in np.ndindex(*shape):
        S.check((False if mask is None else bool(mask[i])) == rm[i], label + ': mask')
        if not rm[i]:
            S.check(S.eq(value[i], rv[i]), label + ': value')
    for k, a in attrs.items():
        S.check(k in v.attrs and v.attrs[k] == a, label + ': attributes')
    S.check(units is None or v.units == units, label + ': units')


def field(S, sizes, dims, mask=1, bounds=True, crs='spherical', kind='f', extra=(), unlimited=False, spatial_mask=False, two_dim=False):
    src = Source(S, dict(sizes, bounds=2))
    if unlimited:
        src.dims['time'] = Dimension('time', size=None, size_current=sizes['time'])
    f = Field(name='fld', crs=CRS[crs]() if crs else None, attrs={'title': 'a field', 'version': 3})
    ux, uy = ('m', 'm') if crs == 'lambert' else ('degrees_east', 'degrees_north')
    sx, sy = ({'standard_name': 'projection_%s_coordinate' % k} if crs == 'lambert' else {} for k in 'xy')
    b = lambda n, d: src.variable(n, d + ['bounds']) if bounds else None
    if two_dim:
        x, y = src.variable('lon', ['y', 'x'], units=ux, attrs=sx), src.variable('lat', ['y', 'x'], units=uy, attrs=sy)
    else:
        x = src.variable('lon', ['x'], bounds=b('lon_bounds', ['x']), units=ux, attrs=sx)
        y = src.variable('lat', ['y'], bounds=b('lat_bounds', ['y']), units=uy, attrs=sy)
    f.set_grid(Grid(x, y))
    if 'time' in dims:
        first = S.cint('day0', 0, 1)
        t = src.variable('time', ['time'], kind=S.array([float(first + 3 * k) for k in range(sizes['time'])], 'f'), cls=TemporalVariable,
                         bounds=b('time_bounds', ['time']), units='days since 2000-01-01', calendar='noleap')
        f.set_time(t, force=True)
    if 'level' in dims:
        f.set_level(src.variable('plev', ['level'], bounds=b('plev_bounds', ['level']), units='hPa', attrs={'axis': 'Z'}))
    if 'realization' in dims:
        f.set_realization(src.variable('member', ['realization'], kind='i', attrs={'axis': 'R'}))
    if spatial_mask:
        m = np.zeros((sizes['y'], sizes['x']), dtype=bool)
        for k in range(spatial_mask):
            m[k % sizes['y'], k // sizes['y']] = S.cbool('sm%d' % k)
        f.grid.set_mask(m)
        src.spatial_mask = m
    f.add_variable(src.variable('tas', dims, kind, mask, units='K', attrs={'long_name': 'temperature', 'level': 2}), is_data=True)
    for e in extra:
        if e == 'second':
            f.add_variable(src.variable('pr', dims[::-1], 'f', mask, attrs={'cell_methods': 'time: sum'}), is_data=True)
        elif e == 'int':
            f.add_variable(src.variable('count', dims[-1:], 'i', mask), is_data=False)
        elif e == 'string':
            f.add_variable(src.variable('name', ['x'], ['a', 'bcd', 'ef'][:sizes['x']]), force=True)
        elif e == 'scalar':
            f.add_variable(src.variable('threshold', [], np.array(2.0), attrs={'positive': 'up'}))
        elif e == 'flag':
            f.add_variable(Variable(name='flag', attrs={'meaning': 'none'}))
    return f, src


def same_field(S, g, f, src, crs, dims, bounds):
    for n in src.ref:
        S.check(n in g, 'variable present')
        same_variable(S, g[n], src.ref[n], n)
    S.check({v.name for v in g.data_variables} == {n for n in src.ref if {'time', 'y', 'x'} <= set(src.ref[n][3])}, 'data variables')
    S.check(all(g.attrs.get(k) == v for k, v in (('title', 'a field'), ('version', 3))), 'global attributes')
    roles = [('time', g.time), ('lon', g.x), ('lat', g.y), ('plev', g.level), ('member', g.realization)]
    for n, v in roles:
        S.check((v is not None) == (n in src.ref), 'role of the variable')
        if v is not None:
            S.check(v.name == n, 'role of the variable')
            S.check(v.has_bounds == (n + '_bounds' in src.ref), 'bounds')
            if v.has_bounds:
                same_variable(S, v.bounds, src.ref[n + '_bounds'], 'bounds')
    if crs is not None:
        S.check(g.crs == f.crs, 'coordinate system')
    S.check(g.grid is not None and g.grid.shape == f.grid.shape, 'grid')


def roundtrip(S, dims, sizes, bounds=True, crs='spherical', kind='f', fmt=None, time=True, **kw):
    f, src = field(S, sizes, dims, bounds=bounds, crs=crs, kind=kind, **kw)
    with fakenc.scratch() as d:
        path = os.path.join(d, 'a.nc')
        f.write(path, **({'dataset_kwargs': {'format': fmt}} if fmt else {}))
        # Writing does not change the field.
        for n in src.ref:
            same_variable(S, f[n], src.ref[n], 'source ' + n)
        rd = RequestDataset(path)
        g = rd.get()
        same_field(S, g, f, src, crs, dims, bounds)
        if kw.get('spatial_mask'):
            m = g.grid.get_mask()
            S.check((np.zeros(src.spatial_mask.shape, bool) if m is None else m).tolist() == src.spatial_mask.tolist(), 'spatial mask')
        if 'time' in dims:
            S.check(g.dimensions['time'].is_unlimited == bool(kw.get('unlimited')), 'unlimited dimension')
            S.check(g.time.calendar == 'noleap', 'calendar')
            want = [datetime.datetime(2000, 1, 1) + datetime.timedelta(int(v)) for v in src.ref['time'][0].values()] if time else []
            for a, b in zip(g.time.value_datetime.tolist() if time else [], want):
                S.check((a.year, a.month, a.day, a.hour) == (b.year, b.month, b.day, b.hour), 'dates')
        # A second round trip of the field that was read.
        second = os.path.join(d, 'b.nc')
        g.write(second)
        same_field(S, RequestDataset(second).get(), f, src, crs, dims, bounds)


def groups(S, sizes, mask=1):
    """A collection with a group: variables of both keep their own values."""
    f, src = field(S, sizes, ('time', 'y', 'x'), mask=mask)
    child = Field(name='inner')
    sub = Source(S, {'x': 2, 'k': 3}, 'g_')
    child.add_variable(sub.variable('deep', ['k', 'x'], mask=mask), is_data=True)
    child.add_variable(sub.variable('lon', ['k'], 'i'))
    f.add_child(child)
    with fakenc.scratch() as d:
        path = os.path.join(d, 'a.nc')
        f.write(path)
        g = RequestDataset(path).get()
        same_field(S, g, f, src, 'spherical', (), True)
        S.check(list(g.children) == ['inner'], 'groups')
        for n in sub.ref:
            same_variable(S, g.children['inner'][n], sub.ref[n], 'group ' + n)


roundtrip.patches = groups.patches = fakenc.patches()


def tasks(tier):
    th = tier == 'thorough'
    s = {'time': 2, 'y': 2, 'x': 2}
    big = {'time': 2, 'y': 3, 'x': 2, 'level': 2, 'realization': 2}
    T = ('time', 'y', 'x')
    out = []

    def add(**kw):
        out.append((roundtrip, kw))

    for crs in ('spherical', 'wgs84', 'lambert', None):
        add(dims=T, sizes=s, crs=crs, bounds=crs != 'wgs84')
    add(dims=T, sizes=s, mask=3, unlimited=True)
    add(dims=T, sizes=s, mask=3, kind='i')
    add(dims=('time', 'level', 'y', 'x'), sizes=big, mask=2)
    add(dims=('realization', 'time', 'level', 'y', 'x'), sizes=big, mask=2)
    add(dims=('x', 'time', 'y'), sizes=dict(s, x=3), mask=2)
    add(dims=('y', 'x'), sizes=s, mask=2, extra=('int', 'flag'))
    add(dims=T, sizes=dict(s, x=3), extra=('second', 'int'), mask=1)
    add(dims=T, sizes=dict(s, x=3), extra=('string', 'scalar'), mask=1)
    add(dims=T, sizes=s, spatial_mask=3, mask=0)
    add(dims=T, sizes=dict(s, x=3), two_dim=True, mask=1)
    add(dims=T, sizes=s, fmt='NETCDF3_CLASSIC', mask=2, extra=('second',))
    add(dims=T, sizes=s, fmt='NETCDF4_CLASSIC', mask=2)
    out.append((groups, {'sizes': s}))
    if th:
        for dims in (('time', 'x', 'y'), ('y', 'time', 'x'), ('level', 'y', 'x'), ('time', 'realization', 'y', 'x')):
            for kind in 'fi':
                add(dims=dims, sizes=big, mask=3, kind=kind, extra=('second', 'int'), unlimited=dims[0] == 'time')
    return out
