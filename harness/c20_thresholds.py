"""C20: threshold counts count exactly the values meeting the threshold."""
import numpy as np
from ocgis.calc.library.thresholds import Between, Threshold
from symex.engine import is_sym
from symex.session import sym_float

from .calc_common import groups_of, make_field, members, unchanged

FUNCTIONS = ['ocgis.calc.library.thresholds.Threshold.calculate', 'Between.calculate',
             'ocgis.calc.base.AbstractFunction._get_temporal_agg_fill_', 'AbstractParameterizedFunction._format_parms_',
             'AbstractFunction.get_sample_size', 'TemporalVariable.get_grouping']
BOUNDS = 'up to 4 time steps (thorough 5) in any assignment to 2 months, up to 4 cells on six dimension orders, any values and ' \
         'thresholds (+-1000), any masks of up to two cells'
OUTSIDE = 'values that are not numbers, file-only execution'
OPS = {'gt': lambda v, t: v > t, 'lt': lambda v, t: v < t, 'gte': lambda v, t: v >= t, 'lte': lambda v, t: v <= t}


def count(S, op, nt, dims, groups=2, masked=0, sizes=None, months=None, sample=False, grouping='month'):
    S.lazy()
    f, ref, rm, months, shape = make_field(S, nt, dims, groups, masked, sizes, months=months)
    ax = dims.index('time')
    tgd = f.time.get_grouping('all' if grouping == 'all' else [grouping])
    gs = [list(range(nt))] if grouping == 'all' else groups_of(S, tgd, months)
    if op == 'between':
        lo, hi = S.real('lower'), S.real('upper')
        S.assume(lo <= hi)
        fn = Between(field=f, tgd=tgd, alias='out', parms={'lower': lo, 'upper': hi}, calc_sample_size=sample)
        ok = lambda v: S.and_(v >= lo, v <= hi)
    else:
        th = S.real('threshold')
        fn = Threshold(field=f, tgd=tgd, alias='out', parms={'threshold': th, 'operation': op}, calc_sample_size=sample)
        ok = lambda v: OPS[op](v, th)
    vc = fn.execute()
    out = vc['out']
    want_shape = shape[:ax] + (len(gs),) + shape[ax + 1:]
    S.check(tuple(out.shape) == want_shape, 'shape')
    ov, om = out.get_value(), out.get_mask()
    for i in np.ndindex(*want_shape):
        vals = members(ref, rm, i, ax, gs[i[ax]])
        S.check((False if om is None else bool(om[i])) == (not vals), 'masked exactly when the group has no valid value')
        if vals:
            S.check(S.eq(ov[i], S.count([ok(v) for v in vals])), 'count')
        if sample and vals:
            S.check(S.eq(vc['n_out'].get_value()[i], len(vals)), 'sample size')
    unchanged(S, f, 'data', ref, rm)


def rejected(S):
    """Unknown operations and reversed limits are refused."""
    f, ref, rm, months, shape = make_field(S, 2, ('time', 'x'), 1)
    tgd = f.time.get_grouping(['month'])
    lo, hi = S.real('lower'), S.real('upper')
    S.assume(lo > hi)
    for k, kw in ((Between, {'lower': lo, 'upper': hi}), (Threshold, {'threshold': lo, 'operation': 'eq'})):
        try:
            k(field=f, tgd=tgd, alias='out', parms=kw).execute()
            S.check(False, 'refused')
        except (AssertionError, NotImplementedError):
            S.check(True, 'refused')


class _Number(type):
    def __instancecheck__(cls, v):
        return isinstance(v, float) or is_sym(v)


class _Float(metaclass=_Number):
    def __new__(cls, v):
        return sym_float(v)


count.swaps = rejected.swaps = [(k.parms_definition, {i: _Float if j is float else j for i, j in k.parms_definition.items()})
                                for k in (Between, Threshold)]
count.patches = rejected.patches = {('ocgis.calc.library.thresholds', 'float'): sym_float}
ORDERS = [('time', 'y', 'x'), ('x', 'time'), ('time', 'level', 'y', 'x'), ('realization', 'time', 'x'), ('other', 'time', 'x'),
          ('time', 'x', 'other')]


def tasks(tier):
    th = tier == 'thorough'
    out = [(rejected, {})]
    for op in sorted(OPS) + ['between']:
        out.append((count, {'op': op, 'nt': 4 if th else 3, 'dims': ('time', 'x'), 'masked': 1, 'sizes': {'x': 1}}))
        out.append((count, {'op': op, 'nt': 5 if th else 4, 'dims': ('time', 'x'), 'masked': 0}))
        out.append((count, {'op': op, 'nt': 3, 'dims': ('x', 'time'), 'masked': 1, 'months': [1, 1, 1], 'grouping': 'all'}))
        for k, dims in enumerate(ORDERS):
            out.append((count, {'op': op, 'nt': 2, 'dims': dims, 'masked': 1 + k % 2, 'months': [1, 2] if k % 2 else [1, 1], 'sample': True}))
    return out
