"""C22: freeze-thaw transitions are those between spells whose accumulated degrees reach the threshold."""
import itertools

import numpy as np
from ocgis.calc.library.index.freeze_thaw import FreezeThaw, freezethaw1d

from .c20_thresholds import _Float
from .calc_common import groups_of, make_field, members, unchanged

FUNCTIONS = ['ocgis.calc.library.index.freeze_thaw.freezethaw1d', 'FreezeThaw.calculate',
             'ocgis.calc.base.AbstractFunction._get_temporal_agg_fill_', 'AbstractParameterizedFunction._format_parms_',
             'TemporalVariable.get_grouping']
BOUNDS = 'daily series of up to 5 values (thorough 6), any temperatures and positive thresholds (+-1000); executed on fields of up to 3 ' \
         'steps in one or two groups and up to 2 cells with any mask of one cell, in degrees Celsius and Kelvin'
OUTSIDE = 'rounding of floats, steps other than a day'
ASSUMPTIONS = ['temperatures and thresholds are exact numbers']


def transitions(S, x, threshold):
    """
    Degrees are summed up from the start of the series and again from every change between temperatures below zero and
    others.  The first step at which the sum reaches the threshold in either direction starts a thawed or a frozen state,
    unless the state holds already or the sum starts before the current state was reached.
    """
    n = len(x)
    starts = [0] + [i for i in range(n) if bool(x[i] >= 0) != (bool(x[i - 1] >= 0) if i else True)]
    state, reached, count = None, 0, -1
    for s in starts:
        if s < reached:
            continue
        total = 0
        for i in range(s, n):
            total = total + x[i]
            warm, cold = bool(total >= threshold), bool(total <= -threshold)
            if warm or cold:
                if warm is not state:
                    state, reached = warm, i + 1
                    count += 1
                break
    return max(count, 0)


def series(S, n, warm=()):
    """The series whose first signs are given; all combinations are run."""
    x = S.reals('x', (n,))
    for v, w in zip(x, warm):
        S.assume(v >= 0 if w else v < 0)
    th = S.real('threshold')
    S.assume(th > 0)
    got = freezethaw1d(S.array(list(x), 'f'), threshold=th)
    S.check(S.eq(got, transitions(S, list(x), th)), 'number of transitions')


def field(S, nt, dims, units, months=None, groups=1, masked=0, sizes=None):
    f, ref, rm, months, shape = make_field(S, nt, dims, groups, masked, sizes, months=months, units=units)
    ax = dims.index('time')
    tgd = f.time.get_grouping(['month'])
    gs = groups_of(S, tgd, months)
    th = S.real('threshold')
    S.assume(th > 0)
    out = FreezeThaw(field=f, tgd=tgd, alias='out', parms={'threshold': th}).execute()['out']
    want_shape = shape[:ax] + (len(gs),) + shape[ax + 1:]
    S.check(tuple(out.shape) == want_shape, 'shape')
    ov, om = out.get_value(), out.get_mask()
    zero = 273.15 if units == 'K' else 0
    for i in np.ndindex(*want_shape):
        vals = members(ref, rm, i, ax, gs[i[ax]])
        S.check((False if om is None else bool(om[i])) == (not vals), 'masked exactly when the group has no valid value')
        if vals:
            S.check(S.eq(ov[i], transitions(S, [v - zero for v in vals], th)), 'number of transitions')
    unchanged(S, f, 'data', ref, rm)


field.swaps = [(FreezeThaw.parms_definition, {'threshold': _Float})]


def tasks(tier):
    th = tier == 'thorough'
    out = [(series, {'n': n}) for n in range(1, 5)]
    for n in (5, 6)[:2 if th else 1]:
        out += [(series, {'n': n, 'warm': w}) for w in itertools.product((True, False), repeat=n - 2)]
    for u in ('C', 'K'):
        out.append((field, {'nt': 3, 'dims': ('time', 'x'), 'units': u, 'months': [1, 1, 1], 'sizes': {'x': 1}, 'masked': 1}))
        out.append((field, {'nt': 4 if th else 3, 'dims': ('time', 'x'), 'units': u, 'months': [1, 1, 2, 2][:4 if th else 3], 'sizes': {'x': 1}, 'masked': 1}))
        out.append((field, {'nt': 2, 'dims': ('x', 'time'), 'units': u, 'months': [1, 1], 'masked': 1}))
        out.append((field, {'nt': 2, 'dims': ('time', 'y', 'x'), 'units': u, 'months': [1, 1]}))
        out.append((field, {'nt': 2, 'dims': ('time', 'level', 'x'), 'units': u, 'months': [1, 1], 'sizes': {'x': 1}, 'masked': 1}))
    return out
