"""C15: temporal grouping partitions the time axis."""
import itertools

import numpy as np

from .dates import PATCHES, date, key, time_variable

FUNCTIONS = ['ocgis.variable.temporal.TemporalVariable.get_grouping', 'TemporalVariable._get_grouping_other_', 'TemporalVariable._get_grouping_all_',
             'TemporalVariable._get_grouping_representative_datetime_', 'TemporalGroupVariable', 'TemporalVariable.extent_datetime']
BOUNDS = 'up to 4 steps (thorough 5) in any order whose grouped parts are any dates of three years, with or without bounds (any dates around the step); ' \
         'all combinations of year, month and day'
OUTSIDE = 'groupings finer than a day (refused by the code), dates that are converted from numbers, non-standard calendars'
ASSUMPTIONS = ['February has 28 days in input dates; dates are compared as (year, month, day, hour)']


def grouping(S, n, parts, bounds=False, fixed=(), ordered=False):
    S.int_storage()
    years = (2000, 2002) if 'year' not in fixed else 2001
    steps = [date(S, 't%d' % i, years, day=15 if 'day' in fixed else None, hour=12,
                  month=None if 'month' not in fixed else 7) for i in range(n)]
    if ordered:
        for a, b in zip(steps, steps[1:]):
            S.assume(key(a) < key(b))
    ba = None
    if bounds:
        ba = []
        for i, d in enumerate(steps):
            lo, hi = date(S, 'lo%d' % i, (1999, 2002)), date(S, 'hi%d' % i, (2000, 2003))
            S.assume(S.and_(key(lo) <= key(d), key(d) <= key(hi)))
            # The lower bound is in the month of the step.
            S.assume(S.and_(lo.year == d.year, lo.month == d.month))
            ba.append((lo, hi))
    tvar = time_variable(steps, ba)
    tgd = tvar.get_grouping(list(parts) if parts != 'all' else 'all')
    groups = [[int(i) for i in np.arange(n)[g]] for g in tgd.dgroups]
    S.check(sorted(i for g in groups for i in g) == list(range(n)), 'every step is in one group')
    S.check(all(groups), 'no empty groups')
    S.check(tgd.shape == (len(groups),) and tgd.bounds.shape == (len(groups), 2), 'one value per group')
    value, gb = tgd.value_datetime, tgd.bounds.value_datetime
    part = lambda d: [getattr(d, p) for p in ('year', 'month', 'day') if p in parts]
    same = lambda a, b: S.and_(*[x == y for x, y in zip(part(a), part(b))] + [True, True])
    which = {i: k for k, g in enumerate(groups) for i in g}
    if parts != 'all':
        for i, j in itertools.combinations(range(n), 2):
            S.check(S.iff(same(steps[i], steps[j]), which[i] == which[j]), 'same group exactly for the same parts')
        for a, b in zip(groups, groups[1:]):
            pa, pb = part(steps[a[0]]), part(steps[b[0]])
            lt = False
            for x, y in reversed(list(zip(pa, pb))):
                lt = S.or_(x < y, S.and_(x == y, lt))
            S.check(lt, 'groups in order')
    for k, g in enumerate(groups):
        lows = [key(steps[i]) if ba is None else key(ba[i][0]) for i in g]
        highs = [key(steps[i]) if ba is None else key(ba[i][1]) for i in g]
        S.check(S.and_(S.all_([key(gb[k, 0]) <= q for q in lows]), S.any_([S.eq(key(gb[k, 0]), q) for q in lows])), 'lower bound of the group')
        S.check(S.and_(S.all_([key(gb[k, 1]) >= q for q in highs]), S.any_([S.eq(key(gb[k, 1]), q) for q in highs])), 'upper bound of the group')
        if parts == 'all':
            S.check(S.any_([S.eq(key(value[k]), key(d)) for d in steps]), 'representative date is one of the steps')
            continue
        first = steps[g[0]]
        S.check(same(value[k], first), 'representative date has the parts')
        for p in ('year', 'month', 'day'):
            if p in parts:
                S.check(S.eq(tgd.date_parts[k][p], getattr(first, p)), 'date parts')
            else:
                S.check(tgd.date_parts[k][p] is None, 'other date parts')
        if 'year' not in parts:
            S.check(S.any_([value[k].year == steps[i].year for i in g]), 'representative date is in a year of the group')
    # The source is unchanged.
    S.check(S.all_([S.eq(key(a), key(b)) for a, b in zip(tvar.value_datetime, steps)]), 'source unchanged')
    S.check(tgd.dimensions[0].name == 'time' and tgd.bounds.name == 'climatology_bounds' and list(tgd.grouping) == list(parts), 'names')


grouping.patches = PATCHES


def refused(S):
    """Finer groupings are refused."""
    S.int_storage()
    steps = [date(S, 't%d' % i, (2000, 2001)) for i in range(2)]
    for p in ('hour', 'minute', 'second'):
        try:
            time_variable(steps).get_grouping([p])
            ok = False
        except NotImplementedError:
            ok = True
        S.check(ok, 'refused')


refused.patches = PATCHES


def tasks(tier):
    out = []
    deep = tier == 'thorough'

    def add(n, parts, **kw):
        out.append((grouping, dict(n=n, parts=parts, **kw)))

    for b in (False, True):
        for p in (('year',), ('month',), ('day',)):
            for n in (1, 2, 3):
                add(n, p, bounds=b)
            if not b or deep:
                add(4, p, bounds=b, ordered=b)
        for p in (('month', 'year'), ('day', 'month'), ('day', 'year'), ('year', 'month'), ('day', 'month', 'year')):
            for n in (1, 2):
                add(n, p, bounds=b)
            add(3, p, bounds=b, ordered=b or len(p) == 3)
        for n in (1, 2, 3):
            add(n, 'all', bounds=b)
    add(4, ('month', 'year'), ordered=True)
    add(5, ('month',), ordered=True)
    add(5, ('year',), ordered=True)
    if deep:
        add(5, ('month',))
        add(6, ('year',), ordered=True)
        add(6, ('month',), ordered=True)
        add(3, ('day', 'month'), bounds=True)
        add(4, ('day', 'month'))
        add(4, ('month', 'year'))
        add(4, ('day', 'month', 'year'), ordered=True)
        add(4, ('month', 'year'), bounds=True, ordered=True)
    out.append((refused, {}))
    return out
