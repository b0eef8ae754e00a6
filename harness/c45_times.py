"""C45: dates and numbers of a time variable describe its current value after any history of changes."""
import cf_units
import numpy as np
from ocgis import TemporalVariable

from .units_common import PATCHES, is_day

FUNCTIONS = ['ocgis.variable.temporal.TemporalVariable.{value_datetime,value_numtime,extent_datetime,extent_numtime,get_datetime,get_numtime,__setitem__,set_value,'
             'set_mask,units,calendar,cfunits_conform,_getitem_finalize_,get_between,copy}', 'ocgis.variable.base.Variable.{set_value,set_mask,__setitem__,__getitem__,set_bounds}']
BOUNDS = 'histories of up to 3 changes (4 in the thorough tier) of a variable of 3 times with any values within +-20000 days, with and without bounds, read between the ' \
         'changes or not; two units, two calendars'
ASSUMPTIONS = ['the conversions of the netCDF4 library are a stand-in in symbolic runs (date = origin of the units + number, with the calendar); replays use the library']
OUTSIDE = 'values changed in place through the array of the variable (the library cannot see them), months as units (C18)'
UNITS = {'days since 2000-1-1': 0, 'days since 2000-1-21': 20}
UNIT = list(UNITS)
CALENDARS = ['noleap', 'proleptic_gregorian']



class Model(object):
    """What the variable holds."""

    def __init__(self, value, bounds, units, calendar):
        self.value, self.bounds, self.mask = list(value), None if bounds is None else [list(b) for b in bounds], [False] * len(value)
        # The mask of the bounds grows with the one of the variable; it is not removed with it.
        self.bmask = list(self.mask)
        self.units, self.calendar = units, calendar

    def clone(self):
        m = Model(self.value, self.bounds, self.units, self.calendar)
        m.mask, m.bmask = list(self.mask), list(self.bmask)
        return m


def look(S, t, m, deep=True):
    """All ways to read the times agree with the model."""
    off = UNITS[m.units]
    num, dt = t.value_numtime, t.value_datetime
    S.check(tuple(num.shape) == (len(m.value),) and tuple(dt.shape) == (len(m.value),), 'shape')
    nm, dm = np.ma.getmaskarray(num), np.ma.getmaskarray(dt)
    S.check(nm.tolist() == m.mask and dm.tolist() == m.mask, 'mask of the times')
    n, d = np.ma.getdata(num), np.ma.getdata(dt)
    for i in range(len(m.value)):
        if m.mask[i]:
            continue
        S.check(S.eq(n[i], m.value[i]), 'number')
        S.check(is_day(S, d[i], m.value[i] + off, m.calendar), 'date')
    if m.bounds is not None:
        b = t.bounds
        bn, bd = np.ma.getdata(b.value_numtime), np.ma.getdata(b.value_datetime)
        bm = np.ma.getmaskarray(b.value_datetime)
        S.check(bm.tolist() == [[k, k] for k in m.bmask], 'mask of the bounds')
        for i in range(len(m.value)):
            if not m.bmask[i]:
                for k in (0, 1):
                    S.check(S.eq(bn[i, k], m.bounds[i][k]), 'number of the bounds')
                    S.check(is_day(S, bd[i, k], m.bounds[i][k] + off, m.calendar), 'date of the bounds')
    if deep and not any(m.mask) and not any(m.bmask):
        all_ = m.value if m.bounds is None else [k for b in m.bounds for k in b]
        lo, hi = (S.min(*all_), S.max(*all_)) if len(all_) > 1 else (all_[0], all_[0])
        e, f = t.extent_numtime, t.extent_datetime
        S.check(S.and_(S.eq(e[0], lo), S.eq(e[1], hi)), 'extent in numbers')
        S.check(S.and_(is_day(S, f[0], lo + off, m.calendar), is_day(S, f[1], hi + off, m.calendar)), 'extent in dates')


def fresh(S, tag, n):
    return S.ints(tag, (n,), -20000, 20000)


def history(S, first, steps, bounds=False, read=True, last=None):
    """Any history of changes that starts with ``first``."""
    S.lazy()
    S.int_storage()
    v = fresh(S, 'v', 3)
    kw = {}
    bv = None
    if bounds:
        bv = S.ints('b', (3, 2), -20000, 20000)
        kw['bounds'] = TemporalVariable(name='tb', value=S.array(bv, 'i'), dimensions=['time', 'bounds'], units=UNIT[0], calendar=CALENDARS[0], dtype=int)
    t = TemporalVariable(name='time', value=S.array(v, 'i'), dimensions='time', units=UNIT[0], calendar=CALENDARS[0], dtype=int, **kw)
    m = Model(v, bv, UNIT[0], CALENDARS[0])
    others = []
    if read:
        look(S, t, m, False)
    for k in range(steps):
        op = first if k == 0 else S.choice('op%d' % k, OPS)
        n = len(m.value)
        if op == 'value':
            m.value = list(fresh(S, 'v%d' % k, n))
            t.set_value(S.array(m.value, 'i'))
        elif op == 'mask':
            m.mask = [False] * n
            m.mask[0] = m.bmask[0] = True
            t.set_mask(m.mask)
        elif op == 'unmask':
            m.mask = [False] * n
            t.set_mask(None)
        elif op == 'item':
            w = fresh(S, 'i%d' % k, 1)
            src = {}
            if m.bounds is not None:
                wb = S.ints('ib%d' % k, (1, 2), -20000, 20000)
                src['bounds'] = TemporalVariable(name='qb', value=S.array(wb, 'i'), dimensions=['time', 'bounds'], units=m.units, calendar=m.calendar, dtype=int)
                m.bounds[n - 1], m.bmask[n - 1] = list(wb[0]), False
            t[n - 1:n] = TemporalVariable(name='q', value=S.array(w, 'i'), dimensions='time', units=m.units, calendar=m.calendar, dtype=int, **src)
            m.value[n - 1], m.mask[n - 1] = w[0], False
        elif op == 'slice':
            others.append((t, m.clone()))
            t = t[n - 2:] if n > 1 else t[0:1]
            lo = max(n - 2, 0)
            m.value, m.mask, m.bmask = m.value[lo:], m.mask[lo:], m.bmask[lo:]
            m.bounds = None if m.bounds is None else m.bounds[lo:]
        elif op == 'units':
            m.units = UNIT[1] if m.units == UNIT[0] else UNIT[0]
            t.units = m.units
        elif op == 'calendar':
            m.calendar = CALENDARS[1] if m.calendar == CALENDARS[0] else CALENDARS[0]
            t.calendar = m.calendar
        elif op == 'conform' and not any(m.mask + m.bmask):
            # Masked times of other calendars than the standard one are refused by the units library.
            off = UNITS[m.units]
            m.units = UNIT[1] if m.units == UNIT[0] else UNIT[0]
            off -= UNITS[m.units]
            m.value = [k + off for k in m.value]
            m.bounds = None if m.bounds is None else [[k + off for k in b] for b in m.bounds]
            t.cfunits_conform(cf_units.Unit(m.units, calendar=m.calendar))
        elif op == 'copy':
            others.append((t, m.clone()))
            t = t.copy()
        elif op == 'bounds' and m.bounds is not None:
            m.bounds = [list(r) for r in S.ints('nb%d' % k, (n, 2), -20000, 20000)]
            t.bounds.set_value(S.array(np.array(m.bounds, dtype=object), 'i'))
        if read:
            look(S, t, m, False)
    look(S, t, m)
    S.check(t.get_value().shape == (len(m.value),) and S.all_([m.mask[i] or S.eq(t.get_value()[i], m.value[i]) for i in range(len(m.value))]), 'value')


OPS = ['value', 'mask', 'unmask', 'item', 'slice', 'units', 'calendar', 'copy', 'bounds', 'conform']
history.patches = PATCHES


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    for op in OPS:
        for bounds in (False, True):
            if op == 'bounds' and not bounds:
                continue
            out.append((history, {'first': op, 'steps': 2 if not deep else 3, 'bounds': bounds}))
            out.append((history, {'first': op, 'steps': 3 if not deep else 4, 'bounds': bounds, 'read': False}) if not bounds else
                       (history, {'first': op, 'steps': 2 if not deep else 3, 'bounds': bounds, 'read': False}))
    return out
