"""C19: grouped statistics use exactly the unmasked members of each group."""
import calendar
import datetime

import numpy as np
from ocgis import Dimension, Field, TemporalVariable, Variable
from ocgis.calc.library.math import Sum
from ocgis.calc.library.statistics import DailyPercentile, FrequencyPercentile, Max, Mean, Median, Min, StandardDeviation

from .calc_common import groups_of, make_field, members, unchanged
from .common import nested

FUNCTIONS = ['ocgis.calc.base.AbstractFunction._get_temporal_agg_fill_', 'AbstractFunction._iter_conformed_arrays_',
             'AbstractFunction.get_fill_variable', 'AbstractFunction.get_sample_size', 'AbstractUnivariateSetFunction._execute_',
             'ocgis.calc.library.statistics.{Mean,Median,Min,Max,StandardDeviation}.calculate', 'ocgis.calc.library.math.Sum.calculate',
             'ocgis.calc.library.statistics.{FrequencyPercentile,DailyPercentile}', 'ocgis.util.broadcaster.broadcast_array_by_dimension_names', 'TemporalVariable.get_grouping', 'Variable.set_value']
BOUNDS = 'up to 4 time steps (thorough 5) in any assignment to up to 3 months; 1..4 cells on every listed dimension order ' \
         '(time, level, realization, y, x and one extra dimension); any values (+-1000) and any masks of up to two cells'
OUTSIDE = 'rounding of floats, file-only execution'
KLASSES = {'mean': Mean, 'sum': Sum, 'min': Min, 'max': Max, 'median': Median, 'std': StandardDeviation, 'freq': FrequencyPercentile}


def stat(S, name, vals):
    n = len(vals)
    if name == 'sum':
        return S.sum_(vals)
    if name == 'mean':
        return S.sum_(vals) / n
    if name == 'min':
        return S.min(*vals) if n > 1 else vals[0]
    if name == 'max':
        return S.max(*vals) if n > 1 else vals[0]


def percentile(S, vals, q):
    """Linear interpolation between the sorted values (at most four)."""
    vals = list(vals)
    for k in range(len(vals) - 1):
        for i in range(len(vals) - 1 - k):
            vals[i], vals[i + 1] = S.min(vals[i], vals[i + 1]), S.max(vals[i], vals[i + 1])
    at = (len(vals) - 1) * q / 100.
    k = min(int(at), len(vals) - 2) if len(vals) > 1 else 0
    return vals[k] + (vals[k + 1] - vals[k]) * (at - k) if len(vals) > 1 else vals[0]


def check_value(S, name, got, vals, q=None):
    n = len(vals)
    if name == 'freq':
        S.check(S.eq(got, percentile(S, vals, q)), 'percentile')
        return
    if name == 'median':
        # The middle of the sorted values.
        for v in vals:
            S.check(S.or_(got >= v, S.count([w >= v for w in vals]) * 2 <= n), 'median')
            S.check(S.or_(got <= v, S.count([w <= v for w in vals]) * 2 <= n), 'median')
        if n % 2:
            S.check(S.any_([S.eq(got, v) for v in vals]), 'median is a member')
        else:
            S.check(S.any_([S.eq(got * 2, v + w) for v in vals for w in vals]), 'median is a mean of members')
            if n == 2:
                S.check(S.eq(got * 2, vals[0] + vals[1]), 'median of two')
    elif name == 'std':
        mean = S.sum_(vals) / n
        S.check(got >= 0, 'standard deviation sign')
        S.check(S.eq(got * got, S.sum_([(v - mean) * (v - mean) for v in vals]) / n), 'standard deviation')
    else:
        S.check(S.eq(got, stat(S, name, vals)), name)


def grouped(S, name, nt, dims, groups=2, masked=0, sizes=None, sample=False, grouping='month', months=None, ints=False, q=None):
    if ints:
        S.int_storage()
    f, ref, rm, months, shape = make_field(S, nt, dims, groups, masked, sizes, months=months,
                                           values=(lambda sh: S.ints('data', sh, -1000, 1000)) if ints else None)
    tgd = f.time.get_grouping([grouping] if grouping != 'all' else 'all')
    ax = dims.index('time')
    if grouping == 'all':
        gs = [list(range(nt))]
    else:
        gs = groups_of(S, tgd, months)
    fn = KLASSES[name](field=f, tgd=tgd, alias='out', calc_sample_size=sample, **({'parms': {'percentile': q}} if q is not None else {}))
    vc = fn.execute()
    out = vc['out']
    want_shape = shape[:ax] + (len(gs),) + shape[ax + 1:]
    S.check(tuple(out.shape) == want_shape, 'shape')
    S.check([d.name for d in out.dimensions] == list(dims), 'dimension order')
    ov, om = out.get_value(), out.get_mask()
    if sample:
        ns = vc['n_out']
        nv, nm = ns.get_value(), ns.get_mask()
    for i in np.ndindex(*want_shape):
        vals = members(ref, rm, i, ax, gs[i[ax]])
        gm = False if om is None else bool(om[i])
        S.check(gm == (not vals), 'masked exactly when the group has no valid value')
        if vals:
            check_value(S, name, ov[i], vals, q)
        if sample:
            S.check((False if nm is None else bool(nm[i])) == (not vals), 'mask of the sample size')
            if vals:
                S.check(S.eq(nv[i], len(vals)), 'sample size')
    unchanged(S, f, 'data', ref, rm)


DATES = {'year': [(2000, 12, 30), (2000, 12, 31), (2001, 1, 1), (2001, 12, 31)], 'leap': [(2000, 2, 28), (2000, 2, 29), (2001, 2, 28), (2001, 3, 1)],
         'plain': [(2000, 6, 1), (2000, 6, 2), (2001, 6, 2), (2001, 6, 4)], 'long': [(2000, 2, 26), (2000, 2, 29), (2001, 2, 27), (2001, 3, 2)]}


def near(when, month, day, window, only_leap):
    """Whether a date lies in the window around a day of the calendar in any year."""
    half = window // 2
    leap = calendar.isleap(when.year)
    if (month, day) == (2, 29) and not leap:
        # The days around the missing one: it stands between the last of February and the first of March.
        if only_leap:
            return False
        d = (when - datetime.datetime(when.year, 2, 28)).days
        return -half + 1 <= d <= half
    for y in (when.year - 1, when.year, when.year + 1):
        try:
            if abs((when - datetime.datetime(y, month, day)).days) <= half:
                return True
        except ValueError:
            pass
    return False


def daily(S, dates, window, only_leap=False, q=50., masked=False, cells=2):
    """Percentiles of the values around each day of the calendar."""
    when = [datetime.datetime(*d) for d in DATES[dates]]
    n = len(when)
    data = S.reals('data', (n, 1, cells), -1000, 1000)
    ref = nested(data)
    m = np.zeros((n, 1, cells), dtype=bool)
    if masked:
        for i in range(n):
            m[i, 0, 0] = S.cbool('m%d' % i)
    dims = [Dimension('time', n), Dimension('y', 1), Dimension('x', cells)]
    t = np.empty(n, dtype=object)
    t[:] = when
    f = Field(time=TemporalVariable(name='time', value=t, dimensions=dims[0]))
    for k, c in ((1, 'y'), (2, 'x')):
        f.add_variable(Variable(c, value=np.arange(float(dims[k].size)), dimensions=dims[k]))
        f.dimension_map.set_variable(c, f[c])
    f.add_variable(Variable('data', value=data, mask=m if masked else None, dimensions=dims), is_data=True)
    fn = DailyPercentile(field=f, alias='dp', parms={'percentile': q, 'window_width': window, 'only_leap_years': only_leap})
    out = fn.execute()['dp']
    days = sorted({(d.month, d.day) for d in when})
    got = [(d.month, d.day) for d in fn.tgd.value_datetime]
    S.check(sorted(got) == days, 'one result per day of the calendar')
    S.check(out.shape == (len(days), 1, cells), 'shape')
    v, om = out.get_value(), out.get_mask()
    for k, (month, day) in enumerate(got):
        for x in range(cells):
            vals = [ref[i][0][x] for i in range(n) if not m[i, 0, x] and near(when[i], month, day, window, only_leap)]
            S.check(bool(om is not None and om[k, 0, x]) == (not vals), 'masked exactly when the window has no valid value')
            if vals:
                S.check(S.eq(v[k, 0, x], percentile(S, vals, q)), 'percentile of the window')


ORDERS = [('time', 'y', 'x'), ('x', 'time'), ('y', 'x', 'time'), ('time', 'level', 'y', 'x'), ('realization', 'time', 'x'),
          ('other', 'time', 'x'), ('time', 'x', 'other'), ('level', 'realization', 'x', 'time')]


def tasks(tier):
    th = tier == 'thorough'
    out = []
    for name in sorted(set(KLASSES) - {'freq'}):
        out.append((grouped, {'name': name, 'nt': 4 if th and name not in ('std',) else 3, 'dims': ('time', 'x'), 'masked': 1, 'groups': 2,
                              'sizes': {'x': 1}, 'sample': name in ('mean', 'max', 'median')}))
        out.append((grouped, {'name': name, 'nt': 3, 'dims': ('time', 'x'), 'groups': 3, 'sizes': {'x': 1}}))
        out.append((grouped, {'name': name, 'nt': 3, 'dims': ('time', 'x'), 'groups': 2, 'sizes': {'x': 1}, 'ints': True}))
        for k, dims in enumerate(ORDERS):
            out.append((grouped, {'name': name, 'nt': 3 if th else 2, 'dims': dims, 'masked': 2 if k % 2 else 1, 'sample': bool(k % 3),
                                  'months': [2, 1, 2][:3 if th else 2]}))
    for name in ('mean', 'sum', 'max'):
        out.append((grouped, {'name': name, 'nt': 3, 'dims': ('time', 'y', 'x'), 'masked': 2, 'months': [2, 1, 2], 'sample': True}))
        out.append((grouped, {'name': name, 'nt': 3, 'dims': ('x', 'time'), 'masked': 1, 'months': [1, 1, 1], 'grouping': 'all'}))
        out.append((grouped, {'name': name, 'nt': 5 if th else 4, 'dims': ('time', 'x'), 'groups': 3 if not th else 4, 'sizes': {'x': 1}}))
    for q in (25., 50., 100.):
        out.append((grouped, {'name': 'freq', 'nt': 3, 'dims': ('time', 'y', 'x'), 'masked': 1, 'months': [2, 1, 2], 'q': q}))
        out.append((grouped, {'name': 'freq', 'nt': 3, 'dims': ('x', 'time'), 'masked': 2, 'months': [1, 1, 1], 'grouping': 'all', 'q': q}))
        out.append((grouped, {'name': 'freq', 'nt': 3, 'dims': ('time', 'x'), 'groups': 2, 'sizes': {'x': 1}, 'q': q}))
    for d, windows in (('year', (3, 5)), ('leap', (3,)), ('plain', (3, 5)), ('long', (3, 5, 7))):
        for w in windows:
            out.append((daily, {'dates': d, 'window': w, 'masked': True, 'cells': 1}))
            out.append((daily, {'dates': d, 'window': w, 'q': 75., 'cells': 1}))
            if d in ('leap', 'long'):
                out.append((daily, {'dates': d, 'window': w, 'only_leap': True, 'cells': 1}))
    out.append((daily, {'dates': 'plain', 'window': 3, 'cells': 2}))
    return out
