"""C44: data and times conformed to other units are the same quantities."""
import datetime
import os

import numpy as np
from ocgis import Dimension, Field, Grid, OcgOperations, RequestDataset, TemporalVariable, Variable
from ocgis.util.units import get_units_object
from ocgis.variable.crs import Spherical
from symex import fakenc

from . import units_common as U
from .units_common import ALIAS, convert, is_day

FUNCTIONS = ['ocgis.variable.base.Variable.cfunits_conform', 'Variable.{_get_to_conform_value_,_set_to_conform_value_,cfunits,units,set_value,set_bounds}',
             'ocgis.variable.temporal.TemporalVariable.{_get_to_conform_value_,_set_to_conform_value_,_set_units_,cfunits,value_numtime,value_datetime}',
             'ocgis.util.units.{get_conformed_units,get_units_object,get_are_units_equivalent}', 'ocgis.driver.base.AbstractDriver.init_variable_value',
             'ocgis.driver.request.core.RequestDataset.{conform_units_to,t_conform_units_to}', 'ocgis.ops.engine.OperationsEngine (conform_units_to)',
             'ocgis.driver.nc (reading and writing)']
BOUNDS = 'variables of 3 elements (chains of two conversions) and files of 3 times by up to 2x2 cells, any values (+-1000), any mask of up to three elements, five pairs ' \
         'of units, four units of time and two calendars'
OUTSIDE = 'the conversion factors themselves, which are those of the udunits and cftime libraries; masked times of other calendars than the standard one (the units ' \
          'library refuses them); overflow and rounding'
ASSUMPTIONS = ['conversions of the compiled libraries are affine stand-ins with tabulated factors in symbolic runs; replays use the libraries and the real netCDF library']
PAIRS = [('degC', 'K'), ('hPa', 'Pa'), ('m', 'km'), ('degC', 'degF'), ('K', 'K')]
DAYS = list(U.TIMES)


def same(S, v, values, mask, label):
    """Values, masks and nothing else of a variable."""
    got, gm = v.get_value(), v.get_mask()
    S.check(tuple(got.shape) == np.shape(values), label + ': shape')
    for i in np.ndindex(*np.shape(values)):
        m = False if mask is None else mask[i]
        S.check((False if gm is None else bool(gm[i])) == bool(m), label + ': mask')
        if not m:
            S.check(S.eq(got[i], values[i]), label)


def conformed(values, src, dst):
    out = np.empty(np.shape(values), dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = convert(values[i], src, dst)
    return out


def variable(S, src, dst, kind='f', masked=False, bounds=False, as_object=False, override=False, back=False):
    """A variable, in memory."""
    S.lazy()
    n = 3
    if kind == 'i':
        S.int_storage()
        v = S.ints('v', (n,), -1000, 1000)
        value = S.array(v, 'i')
    else:
        v = S.reals('v', (n,), -1000, 1000)
        value = v.copy()
    m = S.mask('m', (n,)) if masked else None
    kw = {'dtype': int} if kind == 'i' else {}
    b = S.reals('b', (n, 2), -1000, 1000) if bounds else None
    if bounds:
        kw['bounds'] = Variable('b', value=b.copy(), dimensions=['x', 'bounds'])
    # The declared units are wrong when the units are overridden.
    var = Variable('v', value=value, mask=None if m is None else m.copy(), dimensions='x', units='kg' if override else src, attrs={'a': 'b'}, fill_value=-99 if masked else None, **kw)
    other = Variable('o', value=v.copy(), dimensions='x', units=src)
    f = Field(variables=[var, other])
    twin, part = var.copy(), var[0:2]
    target = get_units_object(dst) if as_object else dst
    args = {'from_units': get_units_object(src) if as_object else src} if override else {}
    var.cfunits_conform(target, **args)
    want, wb = conformed(v, src, dst), None if b is None else conformed(b, src, dst)
    names = [dst]
    if back:
        var.cfunits_conform(src)
        want, wb = conformed(want, dst, src), None if b is None else conformed(wb, dst, src)
        names = [src]
    S.check(var.units == names[-1] or get_units_object(var.units) == get_units_object(names[-1]), 'units')
    if kind == 'i':
        # Integers lose their fractions (a known finding), and nothing else.
        got, gm = var.get_value(), var.get_mask()
        for i in range(n):
            S.check((False if gm is None else bool(gm[i])) == bool(m is not None and m[i]), 'integers: mask')
            if m is None or not m[i]:
                S.check((got[i] - want[i] <= 1) & (want[i] - got[i] <= 1), 'integers')
        for i in range(n):
            if m is None or not m[i]:
                S.check(S.eq(got[i], want[i]), 'integers keep their fractions')
    else:
        same(S, var, want, m, 'values')
    S.check(var.attrs['a'] == 'b' and f['v'] is var and var.dimensions[0].name == 'x', 'the rest of the variable')
    if bounds:
        same(S, var.bounds, wb, None if m is None else np.array([[k, k] for k in m]), 'bounds')
        S.check(get_units_object(var.bounds.units) == get_units_object(names[-1]), 'units of the bounds')
    # Nothing else is converted.
    same(S, other, v, None, 'other variables')
    same(S, twin, v, m, 'copies')
    same(S, part, v[0:2], None if m is None else m[0:2], 'parts')
    S.check(twin.units == ('kg' if override else src) and other.units == src, 'units of copies')


def no_units(S):
    """Without units nothing is guessed; units of another quantity are refused and leave no changed values behind."""
    from ocgis.exc import NoUnitsError
    v = S.reals('v', (2,), -1000, 1000)
    var = Variable('v', value=v.copy(), dimensions='x')
    try:
        var.cfunits_conform('K')
        S.check(False, 'refused without units')
    except NoUnitsError:
        S.check(True, 'refused without units')
    same(S, var, v, None, 'values')
    var = Variable('v', value=v.copy(), dimensions='x', units='K')
    try:
        var.cfunits_conform('Pa')
        S.check(False, 'refused with other quantities')
    except ValueError:
        S.check(True, 'refused with other quantities')
    same(S, var, v, None, 'values')


def times(S, src, dst, calendar, masked=False, bounds=False, dates=False, read=True):
    """A time variable, in memory: the dates stay."""
    S.lazy()
    n = 3
    v = S.reals('v', (n,), -1000, 1000)
    b = S.reals('b', (n, 2), -1000, 1000) if bounds else None
    m = S.mask('m', (n,)) if masked else None
    kw = {}
    if bounds:
        kw['bounds'] = TemporalVariable(name='tb', value=b.copy(), dimensions=['time', 'bounds'], units=src, calendar=calendar)
    t = TemporalVariable(name='time', value=v.copy(), mask=None if m is None else m.copy(), dimensions='time', units=src, calendar=calendar, **kw)
    if dates:
        # The same variable made of dates.
        t = TemporalVariable(name='time', value=t.value_datetime, mask=None if m is None else m.copy(), dimensions='time', units=src, calendar=calendar)
    elif read:
        t.value_datetime, t.value_numtime
        if m is None or not m.all():
            t.extent_datetime
        if bounds:
            t.bounds.value_datetime
    t.cfunits_conform(get_units_object(dst, calendar=calendar))
    S.check(str(t.units) == dst and ALIAS.get(t.calendar, t.calendar) == ALIAS.get(calendar, calendar), 'units and calendar')
    look(S, t, v, None if dates else b, m, src, dst, calendar)


def look(S, t, v, b, m, src, dst, calendar, order='value', bm=None):
    day = lambda k: convert(k, src, DAYS[0])
    bm = bm if bm is not None else None if m is None else np.array([[k, k] for k in m])

    def value():
        num, d = t.value_numtime, t.value_datetime
        for i in range(len(v)):
            hit = False if m is None else bool(m[i])
            S.check(bool(np.ma.getmaskarray(num)[i]) == hit, 'mask of the times')
            if not hit:
                S.check(S.eq(np.ma.getdata(num)[i], convert(v[i], src, dst)), 'number')
                S.check(is_day(S, np.ma.getdata(d)[i], day(v[i]), calendar), 'date')

    def bnds():
        if b is None:
            return
        num, d = t.bounds.value_numtime, t.bounds.value_datetime
        for i in np.ndindex(len(v), 2):
            if bm is None or not bm[i]:
                S.check(S.eq(np.ma.getdata(num)[i], convert(b[i], src, dst)), 'number of the bounds')
                S.check(is_day(S, np.ma.getdata(d)[i], day(b[i]), calendar), 'date of the bounds')

    def extent():
        if m is not None and m.any():
            return
        every = [k for k in (v if b is None else b).flatten()]
        e, d = t.extent_numtime, t.extent_datetime
        for k, q in zip((0, 1), (S.min(*every), S.max(*every))):
            S.check(S.eq(e[k], convert(q, src, dst)), 'extent in numbers')
            S.check(is_day(S, d[k], day(q), calendar), 'extent in dates')

    steps = {'value': value, 'bounds': bnds, 'extent': extent}
    for k in [order] + [s for s in steps if s != order]:
        steps[k]()


def write(S, path, src, units, calendar, nt, names, masked):
    f = Field(crs=Spherical())
    T, Y, X = Dimension('time', size=nt), Dimension('lat', size=2), Dimension('lon', size=2)
    bnd = lambda n, c, d: Variable(n, value=[[k - .5, k + .5] for k in c], dimensions=[d, 'bounds'])
    lon, lat = [100., 101.], [10., 11.]
    f.set_grid(Grid(Variable('lon', value=lon, dimensions=X, bounds=bnd('lonb', lon, X), units='degrees_east'),
                    Variable('lat', value=lat, dimensions=Y, bounds=bnd('latb', lat, Y), units='degrees_north')))
    v = S.reals('t', (nt,), 0, 1000)
    # The parts of the bounds that matter for subsets are in order.
    b = S.reals('tb', (nt, 2), 0, 1000)
    f.set_time(TemporalVariable(name='time', value=v.copy(), dimensions=T, units=src, calendar=calendar,
                                bounds=TemporalVariable(name='tb', value=b.copy(), dimensions=[T, 'bounds'], units=src, calendar=calendar)))
    ref = {}
    for n, u in zip(names, units):
        a = S.reals(n, (nt, 2, 2), -1000, 1000)
        m = np.zeros((nt, 2, 2), dtype=bool)
        if n == names[0]:
            for k in range(masked):
                m[k % nt, k % 2, (k + 1) % 2] = S.cbool('m%d' % k)
        f.add_variable(Variable(n, value=a.copy(), mask=m.copy() if masked else None, dimensions=[T, Y, X], units=u, fill_value=-9999. if masked else None), is_data=True)
        ref[n] = a, m
    f.write(path)
    return v, b, ref


def request(S, src, dst, calendar, units, to, order='value', cut=None, masked=2, twice=False):
    """Fields of a request that conforms: whatever is read first, before or after slicing."""
    S.lazy()
    names = ['tas', 'pr'][:len(units)]
    with fakenc.scratch() as d:
        path = os.path.join(d, 'in.nc')
        v, b, ref = write(S, path, src, units, calendar, 3, names, masked)
        kw = {'conform_units_to': to if len(to) > 1 else to[0]} if to else {}
        rd = RequestDataset(path, names if len(names) > 1 else names[0], t_conform_units_to=dst, **kw)
        f = rd.get()
        if twice:
            f.time.get_value(), f['tas'].get_value()
            f = rd.get()
        s = slice(None)
        if cut:
            s = slice(*cut)
            f = f[{'time': s}]
        look(S, f.time, v[s], b[s], None, src, dst or src, calendar, order)
        for k, n in enumerate(names):
            a, m = ref[n]
            u = to[k] if to else units[k]
            S.check(get_units_object(f[n].units) == get_units_object(u), 'units')
            same(S, f[n], conformed(a[s], units[k], u), m[s], 'data')
        if cut is None:
            out = os.path.join(d, 'out.nc')
            f.write(out)
            g = RequestDataset(out, names if len(names) > 1 else names[0]).get()
            look(S, g.time, conformed(v, src, dst or src), conformed(b, src, dst or src), None, dst or src, dst or src, calendar)
            for k, n in enumerate(names):
                a, m = ref[n]
                u = to[k] if to else units[k]
                S.check(get_units_object(g[n].units) == get_units_object(u), 'units in the new file')
                same(S, g[n], conformed(a, units[k], u), m, 'data in the new file')


def operations(S, units, to, geom=None, agg=False, calc=None, twice=False, dataset='file', masked=1):
    """Operations that conform the data of their selections."""
    S.lazy()
    boxes = {'one': [99.6, 9.6, 100.4, 11.4], 'two': None}
    with fakenc.scratch() as d:
        path = os.path.join(d, 'in.nc')
        src = DAYS[0]
        f = None
        v, b, ref = write(S, path, src, units, 'noleap', 2, ['tas'], masked)
        a, m = ref['tas']
        kw = {}
        cells = {1: [(0, 0), (0, 1), (1, 0), (1, 1)]}
        if geom == 'one':
            kw['geom'] = boxes['one']
            cells = {1: [(0, 0), (1, 0)]}
        elif geom == 'two':
            from shapely.geometry import box
            kw['geom'] = [{'geom': box(99.6, 9.6, 100.4, 11.4)}, {'geom': box(100.6, 9.6, 101.4, 11.4)}]
            kw['agg_selection'] = agg
            cells = {1: cells[1]} if agg else {1: [(0, 0), (1, 0)], 2: [(0, 1), (1, 1)]}
        if calc:
            kw['calc'] = [{'func': 'sum', 'name': 'out'}]
            kw['calc_grouping'] = 'all'
        rd = RequestDataset(path, 'tas')
        ops = OcgOperations(dataset=rd if dataset == 'file' else rd.get(), conform_units_to=to, **kw)
        coll = ops.execute()
        if twice:
            coll = ops.execute()
        fields = list(coll.iter_fields())
        S.check(len(fields) == len(cells), 'one field per selection')
        for g, sel in zip(fields, cells.values()):
            var = g['out' if calc else 'tas']
            S.check(calc or get_units_object(var.units) == get_units_object(to), 'units')
            rows, cols = sorted({i for i, _ in sel}), sorted({j for _, j in sel})
            w, wm = conformed(a, units[0], to)[:, rows, :][:, :, cols], m[:, rows, :][:, :, cols]
            if calc:
                got, gm = var.get_value(), var.get_mask()
                for i in np.ndindex(len(rows), len(cols)):
                    vals = [w[(t,) + i] for t in range(2) if not wm[(t,) + i]]
                    if vals:
                        S.check(S.eq(got[(0,) + i], S.sum_(vals)), 'computation on the conformed data')
            else:
                same(S, var, w, wm, 'data')
        if dataset == 'file':
            same(S, rd.get()['tas'], a, m, 'the request is unchanged')
        S.check(get_units_object(RequestDataset(path, 'tas').get()['tas'].units) == get_units_object(units[0]), 'the file is unchanged')


for _f in (variable, no_units, times):
    _f.patches = U.PATCHES
for _f in (request, operations):
    _f.patches = {**fakenc.patches(), **U.PATCHES}


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    for k, (src, dst) in enumerate(PAIRS):
        for bounds in (False, True):
            for masked in (False, True):
                out.append((variable, {'src': src, 'dst': dst, 'bounds': bounds, 'masked': masked, 'as_object': bool(k % 2), 'override': k == 1 or (deep and masked)}))
        out.append((variable, {'src': src, 'dst': dst, 'kind': 'i', 'masked': bool(k % 2)}))
    out += [(variable, {'src': s, 'dst': t, 'back': True, 'bounds': True}) for s, t in (('degC', 'K'), ('hPa', 'Pa'), ('m', 'km'))]
    out.append((no_units, {}))
    for i, src in enumerate(DAYS):
        for j, dst in enumerate(DAYS):
            if i == j and not deep:
                continue
            for cal in ('noleap', 'standard') if deep or i == 0 else ('noleap',):
                for bounds in (False, True):
                    out.append((times, {'src': src, 'dst': dst, 'calendar': cal, 'bounds': bounds, 'masked': cal == 'standard' and (deep or bool(j % 2)), 'read': bool(j % 2)}))
                    if deep:
                        out.append((times, {'src': src, 'dst': dst, 'calendar': cal, 'bounds': bounds, 'masked': False, 'read': not j % 2}))
            out.append((times, {'src': src, 'dst': dst, 'calendar': 'noleap', 'dates': True, 'masked': False}))
    for order in ('value', 'bounds', 'extent'):
        for cut in (None, (1, 3), (2, 3)):
            for cal in ('noleap', 'standard') if deep or order == 'bounds' else ('noleap',):
                out.append((request, {'src': DAYS[0], 'dst': DAYS[2], 'calendar': cal, 'units': ['degC'], 'to': ['K'], 'order': order, 'cut': cut, 'twice': order == 'extent'}))
                if deep:
                    out.append((request, {'src': DAYS[2], 'dst': DAYS[1], 'calendar': cal, 'units': ['hPa'], 'to': ['Pa'], 'order': order, 'cut': cut}))
    for order in ('value', 'bounds'):
        out.append((request, {'src': DAYS[0], 'dst': DAYS[1], 'calendar': 'noleap', 'units': ['degC', 'm'], 'to': ['K', 'km'], 'order': order}))
        out.append((request, {'src': DAYS[0], 'dst': None, 'calendar': 'noleap', 'units': ['degC', 'm'], 'to': ['degF', 'm'], 'order': order}))
        out.append((request, {'src': DAYS[2], 'dst': DAYS[0], 'calendar': 'noleap', 'units': ['m'], 'to': [], 'order': order}))
    for units, to in ((['degC'], 'K'), (['m'], 'km')):
        for geom, agg in ((None, False), ('one', False), ('two', False), ('two', True)):
            for calc in (None, 'sum'):
                for ds in ('file', 'field'):
                    out.append((operations, {'units': units, 'to': to, 'geom': geom, 'agg': agg, 'calc': calc, 'dataset': ds, 'twice': ds == 'file' or calc is None}))
    return out
