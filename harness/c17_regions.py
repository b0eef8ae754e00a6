"""C17: time-region subsets keep exactly the matching dates."""
import numpy as np
from ocgis import Field, Variable
from ocgis.exc import EmptySubsetError

from .dates import PATCHES, date, key, time_variable

FUNCTIONS = ['ocgis.variable.temporal.TemporalVariable.get_time_region', 'TemporalVariable.get_subset_by_function', 'ocgis.util.helpers.get_is_date_between',
             'ocgis.variable.base.Variable.__getitem__', 'ocgis.collection.field.Field.get_field_slice']
BOUNDS = 'up to 4 steps (thorough 5) in any order at any dates of four years; requests of up to two months and two years (any values); bounds within one month ' \
         'or of 1 to 11 whole months'
OUTSIDE = 'steps with bounds that are no whole months and cross months (the month of the upper bound is not counted), years of steps that cross years, ' \
          'request parts other than month and year'


def step_bounds(S, i, kind, d):
    """Bounds around a step and the months covered."""
    if kind == 'within':
        lo, hi = date(S, 'lo%d' % i, d.year, month=d.month), date(S, 'hi%d' % i, d.year, month=d.month)
        S.assume(S.and_(key(lo) <= key(d), key(d) <= key(hi)))
        return lo, hi
    length = S.int('len%d' % i, 1, 11) if kind == 'months' else 1
    # Twelve months from the first one reach into the next year.
    total = d.month - 1 + length
    over = bool(total >= 12)
    lo = date(S, 'lo%d' % i, d.year, month=d.month, day=1)
    hi = date(S, 'hi%d' % i, d.year + over, month=(total - 12 if over else total) + 1, day=1)
    return lo, hi, length


def region(S, n, months=0, years=0, kind=None, field=False, none=False, step_years=(2000, 2003)):
    S.int_storage()
    steps = [date(S, 't%d' % i, step_years) for i in range(n)]
    req = {}
    ms = [S.int('m%d' % i, 1, 12) for i in range(months)]
    ys = [S.int('y%d' % i, 1999, 2004) for i in range(years)]
    if months:
        req['month'] = list(ms)
    elif none:
        req['month'] = None
    if years:
        req['year'] = list(ys)
    elif none:
        req['year'] = None
    ba = None
    if kind:
        ba = [step_bounds(S, i, kind, d) for i, d in enumerate(steps)]
    tvar = time_variable(steps, ba and [b[:2] for b in ba])
    want = []
    for i, d in enumerate(steps):
        if kind == 'months':
            hit_m = S.any_([(m - d.month) % 12 < ba[i][2] for m in ms] + [False])
        else:
            hit_m = S.any_([S.eq(d.month, m) for m in ms] + [False])
        hit_y = S.any_([S.eq(d.year, y) for y in ys] + [False])
        want.append(S.and_(hit_m if months else True, hit_y if years else True))
    f = None
    if field:
        f = Field(name='f')
        f.add_variable(tvar)
        f.set_time(tvar)
        data = Variable('data', value=S.reals('v', (n, 2)), dimensions=['time', 'x'])
        f.add_variable(data, is_data=True)
        tvar = f.time
    try:
        ret, idx = tvar.get_time_region(req, return_indices=True)
    except EmptySubsetError:
        S.check(S.not_(S.any_(want)), 'empty only without matches')
        return
    keep = [int(i) for i in idx]
    for i in range(n):
        S.check(S.iff(want[i], i in keep), 'exactly the matching steps')
    S.check(keep == sorted(set(keep)), 'order')
    S.check(ret.shape == (len(keep),), 'shape')
    S.check(S.all_([S.eq(key(a), key(steps[i])) for a, i in zip(ret.value_datetime, keep)]), 'dates')
    if ba:
        rb = ret.bounds.value_datetime
        S.check(rb.shape == (len(keep), 2), 'bounds')
        for k, i in enumerate(keep):
            S.check(S.and_(S.eq(key(rb[k, 0]), key(ba[i][0])), S.eq(key(rb[k, 1]), key(ba[i][1]))), 'bounds')
    else:
        S.check(not ret.has_bounds, 'no bounds')
    if field:
        out = ret.parent['data']
        S.check(out.shape == (len(keep), 2), 'sliced field')
        for k, i in enumerate(keep):
            for j in range(2):
                S.check(S.eq(out.get_value()[k, j], data.get_value()[i, j]), 'sliced field')
    # Nothing changes on the source or the request.
    S.check(tvar.shape == (n,) and S.all_([S.eq(key(a), key(d)) for a, d in zip(tvar.value_datetime, steps)]), 'source')
    S.check(set(req) == {k for k, v in (('month', months or none), ('year', years or none)) if v}, 'request')
    again = tvar.get_time_region(req)
    S.check(again.shape == ret.shape, 'with and without indices')


def function(S, n, bounds=False):
    """Subsets by a function of the dates."""
    S.int_storage()
    steps = [date(S, 't%d' % i, (2000, 2001)) for i in range(n)]
    ba = [step_bounds(S, i, 'within', d) for i, d in enumerate(steps)] if bounds else None
    tvar = time_variable(steps, ba)
    limit = S.int('limit', 1, 12)
    given = []

    def func(values, bounds=None):
        given.append((values, bounds))
        return [i for i, d in reversed(list(enumerate(values))) if d.month >= limit]

    want = [i for i in reversed(range(n)) if S.fork(steps[i].month >= limit)]
    if not want:
        return
    ret, idx = tvar.get_subset_by_function(func, return_indices=True)
    S.check([int(i) for i in idx] == want and ret.shape == (len(want),), 'indices')
    S.check(S.all_([S.eq(key(a), key(steps[i])) for a, i in zip(ret.value_datetime, want)]), 'dates')
    S.check((given[0][1] is not None) == bounds, 'bounds given')
    if bounds:
        S.check(S.all_([S.eq(key(ret.bounds.value_datetime[k, q]), key(ba[i][q])) for k, i in enumerate(want) for q in (0, 1)]), 'bounds')


for _f in (region, function):
    _f.patches = PATCHES


def tasks(tier):
    out = []
    deep = tier == 'thorough'

    def add(**kw):
        out.append((region, kw))

    for kind in (None, 'within', 'month', 'months'):
        for n in (1, 3):
            add(n=n, months=1, kind=kind)
        add(n=2, months=2, kind=kind)
        add(n=2, months=1, kind=kind, none=True, field=True)
        if kind != 'months':
            add(n=2, years=2, kind=kind)
            add(n=3, years=1, kind=kind, none=True)
            add(n=2, months=1, years=1, kind=kind)
            add(n=2, months=2, years=1, kind=kind, field=True)
    add(n=3, months=1, years=2)
    add(n=4, months=1, years=1)
    add(n=4, months=2)
    for n in (1, 2, 3):
        for b in (False, True):
            out.append((function, {'n': n, 'bounds': b}))
    if deep:
        add(n=5, months=2)
        add(n=5, months=1, years=1)
        add(n=3, months=2, years=2)
        for kind in ('within', 'month', 'months'):
            add(n=4, months=1, kind=kind)
            add(n=3, months=2, kind=kind)
    return out
