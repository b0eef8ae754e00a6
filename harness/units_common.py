"""Conversions of units and times as stand-ins for the compiled libraries in symbolic runs; replays use the libraries."""
import cf_units
import cftime
import netCDF4
import numpy as np
from symex.arrays import SymArray
from symex.engine import active, is_sym

# (scale, offset) of the conversion.  Times: numbers are days since 2000-1-1 times the scale plus the offset, in every calendar.
TABLE = {('K', 'degC'): (1, -273.15), ('degC', 'K'): (1, 273.15), ('hPa', 'Pa'): (100, 0), ('Pa', 'hPa'): (0.01, 0), ('m', 'km'): (0.001, 0),
         ('km', 'm'): (1000, 0), ('degC', 'degF'): (1.8, 32), ('K', 'K'): (1, 0), ('mm', 'm'): (0.001, 0), ('m', 'mm'): (1000, 0)}
TIMES = {'days since 2000-1-1': (1, 0), 'days since 2000-1-21': (1, -20), 'hours since 2000-1-11': (24, -240), 'minutes since 2000-1-1': (1440, 0)}
ALIAS = {'noleap': '365_day', 'gregorian': 'standard'}
_Unit = cf_units.Unit


def convert(value, src, dst):
    """The value in other units."""
    if src in TIMES:
        (a, b), (c, d) = TIMES[src], TIMES[dst]
        if a == c:
            return value - b + d
        return (value - b) / a * c + d if c % a else (value - b) * (c // a) + d
    if src == dst:
        return value
    a, b = TABLE[src, dst]
    if a == 1:
        return value + b if b else value
    return value * a + b if b else value * a


def _name(u):
    text = str(u).split(' calendar=')[0].strip()
    for t in TIMES:
        if text == t or text == str(_Unit(t, calendar='standard')).split(' calendar=')[0].strip():
            return t
    for k in TABLE:
        for t in k:
            if text == t or (' since' not in text and _Unit(text) == _Unit(t)):
                return t
    raise ValueError(text)


class Unit(_Unit):
    """The units library with conversions of symbolic values.  Times convert within one calendar only."""

    def convert(self, value, other, ctype=8, inplace=False):
        if not active():
            return super(Unit, self).convert(value, other, ctype=ctype, inplace=inplace)
        other = cf_units.as_unit(other)
        if not self.is_convertible(other) or self.calendar != other.calendar:
            raise ValueError('Unable to convert')
        src, dst = _name(self), _name(other)
        data, masked = np.ma.getdata(value), np.ma.isMaskedArray(value)
        out = np.empty(data.shape, dtype=object)
        for i in np.ndindex(*data.shape):
            out[i] = convert(data[i], src, dst)
        out = out.view(SymArray)
        if inplace:
            data[...] = out
            return value
        return np.ma.array(out, mask=np.ma.getmaskarray(value).copy()) if masked else out


class When(object):
    """A date of the stand-in: days since 2000-1-1 in a calendar."""

    def __init__(self, days, calendar):
        self.days, self.calendar = days, calendar

    year = property(lambda self: 2000)
    month = day = hour = minute = second = year

    def __deepcopy__(self, memo):
        return self

    def __lt__(self, o):
        return self.days < o.days

    def __gt__(self, o):
        return self.days > o.days

    def __le__(self, o):
        return self.days <= o.days

    def __ge__(self, o):
        return self.days >= o.days


class Library(object):
    """netCDF4 with conversions of symbolic times."""

    def __getattr__(self, name):
        return getattr(netCDF4, name)

    @staticmethod
    def num2date(arr, units, calendar):
        if not active():
            return netCDF4.num2date(arr, units, calendar=calendar)
        arr = np.array(arr, dtype=object)
        a = np.empty(arr.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = When(convert(arr[i], _name(units), 'days since 2000-1-1'), calendar)
        return a if a.shape else a[()]

    @staticmethod
    def date2num(arr, units, calendar):
        if not active():
            return netCDF4.date2num(arr, units, calendar=calendar)
        arr = np.array(arr, dtype=object)
        a = np.empty(arr.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = convert(arr[i].days, 'days since 2000-1-1', _name(units))
        return a.view(SymArray)


def keep(*parts):
    """In symbolic runs dates are left as the library gives them."""
    if active():
        raise ValueError
    return _keep(*parts)


def conversion_state(archetype):
    return False if isinstance(archetype, When) else True if is_sym(archetype) else _state(archetype)


import ocgis.variable.temporal as _t  # noqa: E402

_keep = _t.get_datetime_or_netcdftime
_state = _t.get_datetime_conversion_state
PATCHES = {('ocgis.variable.temporal', 'nc'): Library(), ('ocgis.variable.temporal', 'get_datetime_or_netcdftime'): keep,
           ('ocgis.variable.temporal', 'get_datetime_conversion_state'): conversion_state, ('cf_units', 'Unit'): Unit}


def is_day(S, d, days, calendar):
    """Whether a date is the number of days since 2000-1-1 in the calendar."""
    if isinstance(d, When):
        return S.and_(ALIAS.get(d.calendar, d.calendar) == ALIAS.get(calendar, calendar), S.eq(d.days, days))
    w = cftime.num2date(float(days), 'days since 2000-1-1', calendar=calendar)
    d = cftime.datetime(d.year, d.month, d.day, d.hour, d.minute, d.second, getattr(d, 'microsecond', 0), calendar=w.calendar)
    return abs((d - w).total_seconds()) < 1
