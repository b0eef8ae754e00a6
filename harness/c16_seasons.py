"""C16: seasonal groups contain exactly the months of the season."""
import numpy as np

from .dates import PATCHES, date, key, time_variable

FUNCTIONS = ['ocgis.variable.temporal.TemporalVariable.get_grouping', 'TemporalVariable._get_grouping_other_ (seasons)',
             'TemporalVariable._get_grouping_seasonal_unique_', 'TemporalVariable._get_grouping_representative_datetime_', 'get_sorted_seasons',
             'get_time_regions', 'iter_boolean_groups_from_time_regions', 'get_is_interannual', 'TemporalVariable.get_time_region']
BOUNDS = 'up to 4 steps (thorough 5), in order, at any month of up to three years (gaps included), with or without monthly bounds; fixed lists of disjoint seasons of ' \
         'consecutive months'
OUTSIDE = 'unique seasons over the turn of the year for data of one year only, seasons that overlap or are not contiguous, non-standard calendars'


def make(S, n, years, bounds, ordered, months=None):
    steps, ba = [], []
    for i in range(n):
        y = years[i] if isinstance(years, list) else S.int('y%d' % i, *years)
        m = S.int('m%d' % i, *(months or (1, 12)))
        steps.append(date(S, 't%d' % i, y, month=m, day=10 + i))
    if ordered:
        for a, b in zip(steps, steps[1:]):
            S.assume(key(a) < key(b))
    if bounds:
        for i, d in enumerate(steps):
            last = bool(d.month == 12)
            ba.append((date(S, 'lo%d' % i, d.year, month=d.month, day=1), date(S, 'hi%d' % i, d.year + last, month=1 if last else d.month + 1, day=1)))
    return steps, ba


def within(S, m, season):
    return S.any_([S.eq(m, q) for q in season] + [False])


def chronological(season):
    """Months in the order of the run."""
    s = sorted(season)
    if 12 in s and 1 in s and len(s) < 12:
        k = max(i for i in range(len(s)) if i == 0 or s[i] - s[i - 1] > 1)
        return s[k:] + s[:k]
    return s


def common(S, tgd, groups, steps, ba, n):
    S.check(all(groups), 'no empty groups')
    S.check(tgd.shape == (len(groups),) and tgd.bounds.shape == (len(groups), 2), 'one value per group')
    gb = tgd.bounds.value_datetime
    for k, g in enumerate(groups):
        lows = [key(ba[i][0] if ba else steps[i]) for i in g]
        highs = [key(ba[i][1] if ba else steps[i]) for i in g]
        S.check(S.and_(S.all_([key(gb[k, 0]) <= q for q in lows]), S.any_([S.eq(key(gb[k, 0]), q) for q in lows])), 'lower bound of the group')
        S.check(S.and_(S.all_([key(gb[k, 1]) >= q for q in highs]), S.any_([S.eq(key(gb[k, 1]), q) for q in highs])), 'upper bound of the group')


def seasons(S, n, spec, year=False, bounds=False, ordered=True, years=(2000, 2001)):
    S.int_storage()
    # Years become plain integers in the result.
    steps, ba = make(S, n, years, bounds, ordered) if not year else make_forked_years(S, n, years, bounds, ordered)
    tvar = time_variable(steps, ba or None)
    request = [list(s) for s in spec] + (['year'] if year else [])
    any_member = [S.fork(within(S, d.month, [m for s in spec for m in s])) for d in steps]
    if not any(any_member):
        return
    tgd = tvar.get_grouping(request)
    groups = [[int(i) for i in np.arange(n)[g]] for g in tgd.dgroups]
    common(S, tgd, groups, steps, ba, n)
    value = tgd.value_datetime
    seen = []
    for k, g in enumerate(groups):
        parts = tgd.date_parts[k]
        season = list(parts['months'])
        S.check(season in [list(s) for s in spec], 'the season is a requested one')
        y = int(parts['year']) if year else None
        S.check((y, season) not in seen, 'one group per season')
        seen.append((y, season))
        for i, d in enumerate(steps):
            member = within(S, d.month, season)
            if year:
                member = S.and_(member, d.year == y)
            S.check(S.iff(member, i in g), 'exactly the steps of the season')
        run = chronological(season)
        S.check(within(S, value[k].month, run), 'representative date is in the season')
        S.check(S.and_(value[k].year >= min_(S, [d.year for i, d in enumerate(steps) if i in g]),
                       value[k].year <= max_(S, [d.year for i, d in enumerate(steps) if i in g])), 'representative date is in a year of the steps')
    # Nothing is left out and seasons are in order.
    for i, d in enumerate(steps):
        S.check(S.iff(any(i in g for g in groups), within(S, d.month, [m for s in spec for m in s])), 'all steps of the seasons')
    order = [(y or 0, min(s)) for y, s in seen]
    S.check(order == sorted(order), 'order of seasons')
    S.check(tvar.shape == (n,) and request == [list(s) for s in spec] + (['year'] if year else []), 'arguments unchanged')


def make_forked_years(S, n, years, bounds, ordered, months=None):
    ys = [S.cint('y%d' % i, *years) for i in range(n)]
    if ordered:
        S.assume(all(a <= b for a, b in zip(ys, ys[1:])))
    return make(S, n, ys, bounds, ordered, months)


def min_(S, v):
    return v[0] if len(v) == 1 else S.min(*v)


def max_(S, v):
    return v[0] if len(v) == 1 else S.max(*v)


def unique(S, n, spec, bounds=False, ordered=True, years=(2000, 2001), months=None, exact=False):
    S.int_storage()
    # Years select the regions, months stay symbolic.
    steps, ba = make_forked_years(S, n, years, bounds, ordered, months)
    if exact:
        # All months of one season are there but one step, which is at any month.
        run = chronological(spec[0])
        free = S.cint('free', 0, n - 1)
        for i, d in enumerate(steps):
            S.assume(i == free or (d.year == years[0] + (run[i] < run[0])))
            if i != free:
                S.assume(S.eq(d.month, run[i]))
    if len({d.year for d in steps}) == 1 and any(1 in s and 12 in s for s in spec):
        # Data of one year are not split.
        return
    runs = []
    for y in range(years[0], years[1] + 1):
        for s in spec:
            run = chronological(s)
            cut = run.index(1) if run[0] > run[-1] and 1 in run else len(run)
            need = [(y, m) for m in run[:cut]] + [(y + 1, m) for m in run[cut:]]
            runs.append(need)
    runs.sort(key=lambda r: r[-1])
    is_at = lambda d, q: S.eq(d.month, q[1]) if d.year == q[0] else False
    complete = [S.all_([S.any_([is_at(d, q) for d in steps]) for q in need]) for need in runs]
    have = [S.fork(c) for c in complete]
    want = [r for r, h in zip(runs, have) if h]
    tvar = time_variable(steps, ba or None)
    request = [list(s) for s in spec] + ['unique']
    if not want:
        return
    tgd = tvar.get_grouping(request)
    groups = [[int(i) for i in np.arange(n)[g]] for g in tgd.dgroups]
    S.check(len(groups) == len(want), 'exactly the complete seasons')
    common(S, tgd, groups, steps, None, n)
    for g, need, k in zip(groups, want, range(n)):
        for i, d in enumerate(steps):
            S.check(S.iff(S.any_([is_at(d, q) for q in need]), i in g), 'exactly the steps of the season')
        S.check(S.any_([S.eq(key(tgd.value_datetime[k]), key(steps[i])) for i in g]), 'representative date is one of the steps')
    S.check(request == [list(s) for s in spec] + ['unique'], 'arguments unchanged')


for _f in (seasons, unique):
    _f.patches = PATCHES

FOUR = ((12, 1, 2), (3, 4, 5), (6, 7, 8), (9, 10, 11))


def tasks(tier):
    out = []
    deep = tier == 'thorough'

    def add(fn, n, spec, **kw):
        out.append((fn, dict(n=n, spec=spec, **kw)))

    for b in (False, True):
        for y in (False, True):
            for spec in (((3, 4, 5),), ((12, 1, 2),), ((11, 12, 1, 2),), ((10, 11, 12),), FOUR, ((5,), (1, 2, 3, 4)), ((6, 7, 8, 9), (12, 1)),
                         (tuple(range(1, 13)),)):
                add(seasons, 1, spec, year=y, bounds=b)
                add(seasons, 2 if b or len(spec[0]) == 12 or (spec == FOUR and not deep) else 3, spec, year=y, bounds=b)
        for spec in (((12, 1),), ((3, 4),), ((12, 1), (2,)), ((11,), (12, 1)), ((12,), (1, 2))):
            add(unique, 3, spec, bounds=b, years=(2000, 2002), months=(1, 12))
    for spec in (((12, 1, 2),), ((12, 1), (2,)), ((3, 4, 5), (12, 1)), ((11, 12), (1,)), ((6, 7), (8,), (9, 10)), ((11, 12, 1, 2),),
                 ((3, 4, 5, 6),)):
        add(unique, 4, spec, years=(2000, 2001), months=(1, 12))
    # Half-year seasons leave a small gap in the sorted months.
    for spec in (((10, 11, 12, 1, 2, 3),), ((5, 6, 7, 8, 9, 10, 11, 12, 1),)):
        add(unique, len(spec[0]), spec, years=(2000, 2001), months=(1, 12), exact=True)
    add(unique, 3, FOUR, years=(2000, 2002), months=(1, 12))
    if deep:
        for spec in (((12, 1, 2),), ((12, 1), (2,)), ((3, 4, 5), (12, 1))):
            add(unique, 5, spec, years=(2000, 2001), months=(1, 12))
            add(unique, 4, spec, years=(2000, 2003), months=(1, 12), bounds=True)
        add(seasons, 4, ((12, 1, 2),), year=True)
        add(seasons, 4, ((12, 1, 2), (3, 4)))
        add(seasons, 3, ((12, 1, 2), (3, 4)), bounds=True)
    return out
