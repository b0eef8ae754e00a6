"""C46: subsets by ranges of dates, levels and by functions, alone and together."""
import datetime
import os

import numpy as np
from ocgis import Dimension, Field, OcgOperations, RequestDataset, TemporalVariable, Variable
from ocgis.exc import EmptySubsetError, ExtentError, RequestValidationError
from ocgis.util.helpers import validate_time_subset
from symex import fakenc

from .common import nested
from .dates import date, fill, key
from .units_common import PATCHES, When, convert

FUNCTIONS = ['ocgis.variable.temporal.TemporalVariable.{get_between,get_subset_by_function,get_time_region,get_numtime}', 'ocgis.variable.base.Variable.get_between',
             'ocgis.util.helpers.validate_time_subset', 'ocgis.driver.base.AbstractDriver.create_field', 'ocgis.driver.request.core.RequestDataset._validate_time_subset_',
             'ocgis.ops.engine.OperationsEngine._get_nonspatial_subset_', 'ocgis.ops.parms.definition.{TimeRange,TimeRegion,TimeSubsetFunction,LevelRange}']
BOUNDS = 'time variables of up to 3 steps (thorough 4) in any order, numbers or dates, with cells (all touching or all apart) or without, in three units and two ' \
         'calendars, any range of dates; every selection of up to 4 steps by a function in any order; ranges of dates over up to 3 years with up to two requested months and ' \
         'years; requests and operations on a file of 4 steps and 3 levels with any combination of 5 ranges, months, functions and level ranges and any data values'
OUTSIDE = 'times with masks, bounds that overlap, functions that return positions that are not there'
ASSUMPTIONS = ['the conversions of the netCDF4 library are a stand-in in symbolic runs (date = origin of the units + number, with the calendar); replays use the library']
UNITS = ['days since 2000-1-1', 'days since 2000-1-21', 'hours since 2000-1-11']


def day(S, days, calendar):
    """The date so many days after 2000-1-1."""
    if S.symbolic:
        return When(days, calendar)
    import cftime
    d = cftime.num2date(float(days), UNITS[0], calendar=calendar)
    try:
        return datetime.datetime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)
    except ValueError:
        return d


def between(S, n, units, calendar, bounds=None, dates=False, up=True):
    """A range of dates on a time variable of numbers or of dates."""
    # Whole hours, so that dates of the library are exact.
    hours = S.ints('t', n, -20000, 20000)
    vals = [hours[i] / 24 for i in range(n)]
    num = [convert(v, UNITS[0], units) if S.symbolic else number(v, units) for v in vals]
    d = Dimension('time', n)
    edges = None
    if bounds:
        e = S.ints('e', (n, 2), -20000, 20000)
        for i in range(n):
            S.assume(S.and_(e[i, 0] < e[i, 1], hours[i] >= e[i, 0], hours[i] <= e[i, 1]))
        for i in range(n - 1):
            a, b = (i, i + 1) if up else (i + 1, i)
            S.assume(e[a, 1] == e[b, 0] if bounds == 'touching' else e[a, 1] < e[b, 0])
        edges = [[e[i, k] / 24 for k in (0, 1)] for i in range(n)]
    kw = {}
    if dates:
        value = fill([day(S, v, calendar) for v in vals])
    else:
        value = S.array(num, 'f')
        if bounds:
            b = S.array([[convert(k, UNITS[0], units) if S.symbolic else number(k, units) for k in row] for row in edges], 'f')
            kw['bounds'] = TemporalVariable(name='tb', value=b, dimensions=[d, 'nb'], units=units, calendar=calendar)
    time = TemporalVariable(name='time', value=value, dimensions=d, units=units, calendar=calendar, **kw)
    data = S.reals('data', n)
    ref = nested(data)
    field = Field(time=time, variables=[Variable('tas', value=data, dimensions=d)])
    lo, hi = S.int('lo', -20000, 20000), S.int('hi', -20000, 20000)
    S.assume(lo <= hi)
    x, y = lo / 24, hi / 24
    try:
        ret, idx = field.time.get_between(day(S, x, calendar), day(S, y, calendar), return_indices=True)
    except EmptySubsetError:
        ret, idx = None, []
    if not bounds:
        inside = [S.and_(hours[i] >= lo, hours[i] <= hi) for i in range(n)]
    elif bounds == 'touching' and n > 1:
        inside = [S.and_(e[i, 1] > lo, e[i, 0] <= hi) for i in range(n)]
    else:
        inside = [S.and_(e[i, 1] >= lo, e[i, 0] <= hi) for i in range(n)]
    idx = [int(i) for i in idx]
    S.check(idx == sorted(set(idx)), 'steps in order')
    for i in range(n):
        S.check(inside[i] if i in idx else S.not_(inside[i]), 'exactly the steps in range')
    if ret is not None:
        S.check(S.arr_eq(ret.parent['tas'].get_value(), S.array([ref[i] for i in idx], 'f')), 'data follows')
        if not dates:
            S.check(S.arr_eq(ret.get_value(), S.array([num[i] for i in idx], 'f')), 'times')
        if bounds and not dates:
            S.check(S.arr_eq(ret.bounds.get_value(), S.array([[b[i, 0], b[i, 1]] for i in idx], 'f')), 'bounds follow')


def number(days, units):
    return {UNITS[0]: days, UNITS[1]: days - 20, UNITS[2]: days * 24 - 240}[units]


def function(S, n, kind, bounds=False):
    """A function picks steps; it is given all dates and bounds."""
    cal = 'noleap'
    vals, data = S.reals('t', n, -1000, 1000), S.reals('data', n)
    ref = nested(vals), nested(data)
    d = Dimension('time', n)
    kw = {}
    if bounds:
        b = S.reals('b', (n, 2), -1000, 1000)
        bref = nested(b)
        kw['bounds'] = TemporalVariable(name='tb', value=b, dimensions=[d, 'nb'], units=UNITS[1], calendar=cal)
    time = TemporalVariable(name='time', value=vals, dimensions=d, units=UNITS[1], calendar=cal, **kw)
    field = Field(time=time, variables=[Variable('tas', value=data, dimensions=d)])
    if kind == 'flags':
        flags = [S.cbool('f%d' % i) for i in range(n)]
        sel = [i for i in range(n) if flags[i]]
        out = np.array(flags)
    else:
        k = S.cint('count', 0, n)
        sel = []
        for i in range(k):
            sel.append(S.cint('i%d' % i, 0, n - 1))
        S.assume(len(set(sel)) == len(sel))
        out = {'list': list, 'tuple': tuple, 'array': np.array}[kind](sel)
    seen = []

    def f(value, bounds=None):
        seen.append((value, bounds))
        return out

    try:
        ret, idx = field.time.get_subset_by_function(f, return_indices=True)
    except EmptySubsetError:
        ret = None
    S.check((ret is None) == (not sel), 'empty-subset error only when nothing is picked')
    S.check(len(seen) == 1 and tuple(seen[0][0].shape) == (n,), 'the function is given all dates')
    if S.symbolic:
        S.check(S.all_([S.eq(seen[0][0][i].days, ref[0][i] + 20) for i in range(n)]), 'dates given to the function')
    S.check((seen[0][1] is not None) == bounds, 'bounds given to the function')
    if bounds and S.symbolic:
        S.check(S.all_([S.eq(seen[0][1][i, k].days, bref[i][k] + 20) for i in range(n) for k in (0, 1)]), 'bounds in dates')
    if ret is not None:
        S.check(ret.shape == (len(sel),), 'shape')
        S.check(S.arr_eq(ret.get_value(), S.array([ref[0][i] for i in sel], 'f')), 'times picked')
        S.check(S.arr_eq(ret.parent['tas'].get_value(), S.array([ref[1][i] for i in sel], 'f')), 'data follows')
        if bounds:
            S.check(S.arr_eq(ret.bounds.get_value(), S.array([bref[i] for i in sel], 'f')), 'bounds follow')
    S.check(S.arr_eq(field.time.get_value(), S.array(ref[0], 'f')), 'original unchanged')


def together(S, months, years, first=None):
    """Ranges of dates and requests of months and years."""
    lo = date(S, 'lo', 2000 if first else (2000, 2002), month=first)
    hi = date(S, 'hi', (2000, 2001 if first else 2002))
    S.assume(key(lo) <= key(hi))
    region = {}
    first, last = lo.year * 12 + lo.month - 1, hi.year * 12 + hi.month - 1
    m = [S.int('m%d' % i, 1, 12) for i in range(months)]
    y = [S.int('y%d' % i, 1999, 2003) for i in range(years)]
    if m:
        region['month'] = m
    if y:
        region['year'] = y
    there = [S.or_(*[S.and_(first <= k * 12 + e - 1, k * 12 + e - 1 <= last) for k in (2000, 2001, 2002)]) for e in m]
    within = [S.and_(lo.year <= e, e <= hi.year) for e in y]
    got = bool(validate_time_subset([lo, hi], region))
    if got:
        S.check(S.and_(S.any_(there) if m else True, S.any_(within) if y else True), 'requests outside of the range are refused')
    else:
        S.check(S.not_(S.all_(there + within)), 'requests in the range are accepted')


TIMES = [datetime.datetime(2000, 1, 16), datetime.datetime(2000, 2, 15), datetime.datetime(2000, 3, 16), datetime.datetime(2001, 1, 16)]
RANGES = {'all': None, 'first': (datetime.datetime(1999, 1, 1), TIMES[0]), 'middle': (datetime.datetime(2000, 2, 14), datetime.datetime(2000, 3, 17)),
          'late': (datetime.datetime(2000, 2, 16), datetime.datetime(2001, 3, 1)), 'gap': (datetime.datetime(2000, 4, 1), datetime.datetime(2000, 5, 1))}
REGIONS = {'none': None, 'january': {'month': [1]}, 'spring': {'month': [3, 2]}, 'y2000': {'year': [2000]}, 'both': {'month': [1, 2], 'year': [2000]}}
FUNCS = {'none': None, 'even': lambda value, bounds=None: [i for i in range(len(value)) if i % 2 == 0], 'none left': lambda value, bounds=None: [],
         'reverse': lambda value, bounds=None: list(range(len(value)))[::-1]}
LEVELS = {'all': None, 'low': (5, 20.5), 'one': (20, 20), 'outside': (41, 50)}


def expected(rng, region, func, level):
    t = list(range(4))
    if RANGES[rng]:
        t = [i for i in t if RANGES[rng][0] <= TIMES[i] <= RANGES[rng][1]]
    if REGIONS[region] and t:
        r = REGIONS[region]
        t = [i for i in t if all(getattr(TIMES[i], k) in v for k, v in r.items())]
    if FUNCS[func] and t:
        t = [t[i] for i in FUNCS[func](t)]
    z = [i for i in range(3) if LEVELS[level] is None or LEVELS[level][0] <= (10, 20, 40)[i] <= LEVELS[level][1]]
    return t, z


def request(S, how, rng):
    """All options together, given to a request or to operations."""
    region, func, level = S.choice('region', list(REGIONS)), S.choice('function', list(FUNCS)), S.choice('level', list(LEVELS))
    data = S.reals('data', (4, 3))
    ref = nested(data)
    with fakenc.scratch() as d:
        path = os.path.join(d, 'a.nc')
        field = Field(time=TemporalVariable(name='time', value=[15., 45., 75., 381.], dimensions='time', units=UNITS[0], attrs={'axis': 'T'}),
                      level=Variable('level', value=[10., 20., 40.], dimensions='level', attrs={'axis': 'Z'}))
        field.add_variable(Variable('tas', value=data, dimensions=['time', 'level']), is_data=True)
        field.write(path)
        kw = dict(time_range=RANGES[rng], time_region=REGIONS[region] and dict(REGIONS[region]), time_subset_func=FUNCS[func], level_range=LEVELS[level])
        t, z = expected(rng, region, func, level)
        try:
            if how == 'request':
                got = RequestDataset(path, variable='tas', **kw).get()
            else:
                got = OcgOperations(dataset=RequestDataset(path, variable='tas'), **kw).execute()
                got = got.get_element()
            got = got['tas'].get_value(), got.time.value_numtime, got.level.get_value()
        except EmptySubsetError:
            got = None
        except ExtentError:
            # What operations raise.
            S.check(how == 'operations', 'empty subsets of requests raise EmptySubsetError')
            got = None
        except RequestValidationError:
            S.check(how == 'request' and RANGES[rng] is not None and REGIONS[region] is not None, 'refused')
            return
        S.check((got is None) == (not t or not z), 'empty-subset error only when nothing is left')
        if got is not None and t and z:
            S.check(got[0].shape == (len(t), len(z)), 'shape')
            if got[0].shape == (len(t), len(z)):
                S.check(S.arr_eq(got[0], S.array([[ref[i][k] for k in z] for i in t], 'f')), 'data')
            S.check([float(v) for v in got[1]] == [[15., 45., 75., 381.][i] for i in t] and [float(v) for v in got[2]] == [[10., 20., 40.][k] for k in z], 'coordinates')


for fn in (between, function):
    fn.patches = PATCHES
request.patches = fakenc.patches()


def tasks(tier):
    deep = tier == 'thorough'
    out = [(together, {'months': m, 'years': y}) for m, y in ((1, 0), (0, 1), (0, 2), (1, 1))]
    out += [(together, {'months': 2, 'years': y, 'first': f}) for y in (0, 1) for f in (range(1, 13) if deep else (1, 2, 7, 12))]
    for k, units in enumerate(UNITS):
        cal = ('noleap', 'proleptic_gregorian')[k % 2]
        for n in (1, 2, 3) + ((4,) if deep else ()):
            out.append((between, {'n': n, 'units': units, 'calendar': cal}))
            if k == 0:
                out.append((between, {'n': n, 'units': units, 'calendar': cal, 'dates': True}))
            for up in (True, False):
                for b in ('touching', 'apart'):
                    if n > 1 or (up and b == 'apart'):
                        out.append((between, {'n': n, 'units': units, 'calendar': cal, 'bounds': b, 'up': up}))
    for kind in ('list', 'tuple', 'array', 'flags'):
        for n in (1, 3) + ((4,) if deep else ()):
            out.append((function, {'n': n, 'kind': kind, 'bounds': kind in ('list', 'flags')}))
    for how in ('request', 'operations'):
        for rng in RANGES:
            out.append((request, {'how': how, 'rng': rng}))
    return out
