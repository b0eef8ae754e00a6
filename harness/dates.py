"""Dates with symbolic parts (real dates when a counterexample is replayed)."""
import datetime

import numpy as np
from ocgis import TemporalVariable, Variable
from symex.engine import active, is_sym


class SDate(object):
    """The part of the interface of datetime.datetime that is used on dates."""
    minute = second = microsecond = 0

    def __init__(self, year, month, day, hour=0, minute=0, second=0):
        assert isinstance(minute, int) and minute == 0 and second == 0
        if not is_date(year, month, day) or not 0 <= hour <= 23:
            raise ValueError('not a date')
        self.year, self.month, self.day, self.hour = year, month, day, hour

    @classmethod
    def trusted(cls, *parts):
        r = cls.__new__(cls)
        r.year, r.month, r.day, r.hour = parts
        return r

    @property
    def key(self):
        return ((self.year * 12 + self.month) * 32 + self.day) * 24 + self.hour

    def __lt__(self, o):
        return self.key < key(o)

    def __le__(self, o):
        return self.key <= key(o)

    def __gt__(self, o):
        return self.key > key(o)

    def __ge__(self, o):
        return self.key >= key(o)

    def __eq__(self, o):
        return isinstance(o, (SDate, datetime.datetime)) and bool(self.key == key(o))

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __add__(self, delta):
        """A later date; decides the month."""
        hours = delta.total_seconds() / 3600
        assert hours == int(hours) and hours >= 0
        k = int(self.year * 12 + self.month - 1)

        def start(k):
            return datetime.date(k // 12, k % 12 + 1, 1).toordinal()

        total = (start(k) + self.day - 1) * 24 + self.hour + int(hours)
        d = total // 24
        while d >= start(k + 1):
            k += 1
        return SDate.trusted(k // 12, k % 12 + 1, d - start(k) + 1, total % 24)

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self

    def __repr__(self):
        return 'SDate'


def key(d):
    return ((d.year * 12 + d.month) * 32 + d.day) * 24 + d.hour


def is_date(year, month, day):
    """Whether the day exists, without deciding the parts one by one."""
    ok = (month >= 1) & (month <= 12) & (day >= 1) & (day <= 31)
    short = (month == 4) | (month == 6) | (month == 9) | (month == 11)
    return ok & (~_b(short) | (day <= 30)) & (~_b(month == 2) | (day <= 28) | ((day == 29) & (year % 4 == 0)))


def _b(x):
    # Inversion of a plain bool is not a negation.
    return np.bool_(x) if isinstance(x, bool) else x


def new_date(*args, **kwargs):
    """Stands for the constructors of dates."""
    if active():
        return SDate(*args, **kwargs)
    return datetime.datetime(*args, **kwargs)


def fill(values):
    a = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        a[i] = v
    return a


def date(S, name, years, day=None, hour=0, month=None):
    """One input date.  Parts that are given are fixed."""
    y = S.int(name + '.y', *years) if isinstance(years, tuple) else years
    m = S.int(name + '.m', 1, 12) if month is None else month
    d = S.int(name + '.d', 1, 31) if day is None else day
    if day is None:
        short = S.or_(m == 4, m == 6, m == 9, m == 11)
        S.assume(S.implies(short, d <= 30))
        S.assume(S.implies(m == 2, d <= 28))
    if S.symbolic:
        return SDate.trusted(y, m, d, hour)
    return datetime.datetime(y, m, d, hour)


def time_variable(values, bounds=None, name='time', dim='time'):
    kw = {}
    if bounds is not None:
        b = np.empty((len(bounds), 2), dtype=object)
        for i, (lo, hi) in enumerate(bounds):
            b[i, 0], b[i, 1] = lo, hi
        kw['bounds'] = TemporalVariable(name=name + '_bounds', value=b, dimensions=[dim, 'bounds'])
    return TemporalVariable(name=name, value=fill(values), dimensions=dim, **kw)


PATCHES = {('ocgis.variable.temporal', 'get_datetime_or_netcdftime'): new_date}
