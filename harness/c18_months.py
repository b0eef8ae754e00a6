"""C18: month-based time units convert to the right calendar months."""
import datetime as real

import numpy as np
from ocgis import TemporalVariable, Variable
from ocgis.variable.temporal import get_datetime_from_months_time_units, get_difference_in_months, get_num_from_months_time_units
from symex.engine import active

from .dates import SDate, date, key

FUNCTIONS = ['ocgis.variable.temporal.get_datetime_from_months_time_units', 'get_num_from_months_time_units', 'get_difference_in_months',
             'get_origin_datetime_from_months_units', 'TemporalVariable.get_datetime', 'TemporalVariable.get_numtime', 'TemporalVariable.value_datetime',
             'TemporalVariable.value_numtime', 'TemporalVariable.get_between']
BOUNDS = 'up to 3 values (any order, vectors and n-by-2 bounds), whole numbers of months within 600 of the origin (40 where dates are converted to numbers); ' \
         'six origins'
OUTSIDE = 'fractions of months, 360-day calendars'
ORIGINS = ['months since 1978-12', 'months since 1979-1-1 0', 'months since 2000-6-30 12', 'months since 1960-5', 'months since 1999-12-31 23', 'months since 2000-1']
ORIGIN = [(1978, 12), (1979, 1), (2000, 6), (1960, 5), (1999, 12), (2000, 1)]


class Datetime(object):
    """The module 'datetime' with a constructor that takes symbolic parts."""

    class _Type(type):
        def __call__(cls, *args, **kwargs):
            if active() and args:
                return SDate(*args, **kwargs)
            return real.datetime(*args, **kwargs)

        def __instancecheck__(cls, o):
            return isinstance(o, (SDate, real.datetime))

    class datetime(metaclass=_Type):
        strptime = real.datetime.strptime

    timedelta = real.timedelta


def expected(S, origin, d, months):
    """The date has the calendar month that is ``months`` after the origin."""
    return S.and_(S.eq(d.year * 12 + d.month, origin[0] * 12 + origin[1] + months), S.eq(d.day, 16), S.eq(d.hour, 0))


def to_dates(S, n, u, dims=1, limit=600, low=None, direct=False):
    S.int_storage()
    shape = (n,) if dims == 1 else (n, dims)
    v = S.ints('months', shape, -limit if low is None else low, limit)
    if direct:
        out = get_datetime_from_months_time_units(v, ORIGINS[u])
    else:
        t = TemporalVariable(name='time', value=v, dimensions=['time', 'bounds'][:len(shape)], units=ORIGINS[u], dtype=int)
        out = t.value_datetime
        S.check(S.arr_eq(t.value_numtime, v), 'numbers')
        S.check(S.arr_eq(t.get_value(), v), 'value unchanged')
    S.check(out.shape == shape, 'shape')
    for i in np.ndindex(*shape):
        S.check(expected(S, ORIGIN[u], out[i], v[i]), 'calendar month')


def to_numbers(S, n, u, dims=1, limit=40, direct=False):
    S.int_storage()
    shape = (n,) if dims == 1 else (n, dims)
    y, m = ORIGIN[u]
    v = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        name = 'd' + '_'.join(map(str, i))
        v[i] = date(S, name, (y - limit // 12 - 1, y + limit // 12 + 1))
        S.assume(S.and_((v[i].year - y) * 12 + v[i].month - m <= limit, (v[i].year - y) * 12 + v[i].month - m >= -limit))
    if direct:
        out = get_num_from_months_time_units(v, ORIGINS[u])
    else:
        t = TemporalVariable(name='time', value=v, dimensions=['time', 'bounds'][:len(shape)], units=ORIGINS[u])
        out = t.value_numtime
    S.check(out.shape == shape, 'shape')
    for i in np.ndindex(*shape):
        S.check(S.eq(out[i], (v[i].year - y) * 12 + v[i].month - m), 'number of months')


def round_trip(S, n, u, limit=30):
    S.int_storage()
    v = S.ints('months', (n,), -limit, limit)
    t = TemporalVariable(name='time', value=v, dimensions='time', units=ORIGINS[u], dtype=int)
    back = TemporalVariable(name='time', value=t.value_datetime, dimensions='time', units=ORIGINS[u]).value_numtime
    S.check(S.arr_eq(np.ma.getdata(back), v), 'same number of months')


def difference(S, years=2):
    S.int_storage()
    a, b = date(S, 'a', (2000, 2000 + years)), date(S, 'b', (2000, 2000 + years))
    got = get_difference_in_months(a, b)
    S.check(S.eq(got, (b.year - a.year) * 12 + b.month - a.month), 'difference')


for _f in (to_dates, to_numbers, round_trip, difference):
    _f.patches = {('ocgis.variable.temporal', 'datetime'): Datetime}


def tasks(tier):
    out = []
    deep = tier == 'thorough'
    for u in range(len(ORIGINS)):
        for direct in (False, True):
            for n in (1, 2, 3):
                out.append((to_dates, {'n': n, 'u': u, 'direct': direct}))
            out.append((to_dates, {'n': 2, 'u': u, 'dims': 2, 'direct': direct}))
            out.append((to_numbers, {'n': 1, 'u': u, 'direct': direct, 'limit': 40 if not deep else 120}))
        out.append((round_trip, {'n': 1, 'u': u}))
        out.append((to_numbers, {'n': 2, 'u': u, 'limit': 14 if not deep else 40}))
        if deep:
            out.append((round_trip, {'n': 2, 'u': u}))
    out.append((to_numbers, {'n': 1, 'u': 0, 'dims': 2, 'limit': 13, 'direct': True}))
    out.append((to_numbers, {'n': 1, 'u': 1, 'dims': 2, 'limit': 13}))
    out.append((difference, {}))
    if deep:
        out.append((difference, {'years': 5}))
    return out
