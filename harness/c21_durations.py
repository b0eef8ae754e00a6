"""C21: spell durations are those of the maximal runs of consecutive steps meeting the condition."""
import math

import numpy as np
from ocgis.calc.library.index.duration import Duration, FrequencyDuration

from .c20_thresholds import _Float, OPS
from .calc_common import groups_of, make_field, unchanged

FUNCTIONS = ['ocgis.calc.library.index.duration.Duration.calculate', 'Duration._iter_consecutive_', 'FrequencyDuration.calculate',
             'FrequencyDuration._get_summary_', 'ocgis.calc.base.AbstractFunction._get_temporal_agg_fill_',
             'AbstractParameterizedFunction._format_parms_', 'TemporalVariable.get_grouping']
BOUNDS = 'series of up to 6 steps (thorough 8) in one group, or 4 steps (thorough 5) in any assignment to 2 groups; 1 to 4 cells on ' \
         'several dimension orders; any values and thresholds (+-1000), any masks of up to two cells'
OUTSIDE = 'values that are not numbers, file-only execution, rounding of floats beyond 1e-9'


def runs(flags):
    out = []
    n = 0
    for f in list(flags) + [False]:
        if f:
            n += 1
        elif n:
            out.append(n)
            n = 0
    return out


def summarize(summary, lengths):
    lengths = sorted(lengths) or [0]
    n = len(lengths)
    mean = sum(lengths) / n
    return {'max': lengths[-1], 'min': lengths[0], 'mean': mean,
            'median': (lengths[(n - 1) // 2] + lengths[n // 2]) / 2,
            'std': math.sqrt(sum((i - mean) ** 2 for i in lengths) / n)}[summary]


def duration(S, op, summary, nt, dims, groups=1, masked=0, sizes=None, months=None, grouping='month'):
    f, ref, rm, months, shape = make_field(S, nt, dims, groups, masked, sizes, months=months)
    ax = dims.index('time')
    tgd = f.time.get_grouping('all' if grouping == 'all' else [grouping])
    gs = [list(range(nt))] if grouping == 'all' else groups_of(S, tgd, months)
    th = S.real('threshold')
    parms = {'threshold': th, 'operation': op}
    if summary == 'freq':
        fn = FrequencyDuration(field=f, tgd=tgd, alias='out', parms=parms, dtype=object)
    else:
        fn = Duration(field=f, tgd=tgd, alias='out', parms=dict(parms, summary=summary))
    out = fn.execute()['out']
    want_shape = shape[:ax] + (len(gs),) + shape[ax + 1:]
    S.check(tuple(out.shape) == want_shape, 'shape')
    ov, om = out.get_value(), out.get_mask()
    for i in np.ndindex(*want_shape):
        steps = [i[:ax] + (t,) + i[ax + 1:] for t in gs[i[ax]]]
        empty = all(rm[s] for s in steps)
        S.check((False if om is None else bool(om[i])) == empty, 'masked exactly when the group has no valid value')
        if empty:
            continue
        # Every branch is decided already, unless the implementation does not look at a value.
        lengths = runs([not rm[s] and bool(OPS[op](ref[s], th)) for s in steps])
        if summary == 'freq':
            got = {}
            for rec in ov[i]:
                S.check(int(rec['duration']) not in got, 'one record for a length')
                got[int(rec['duration'])] = int(rec['count'])
            want = {k: lengths.count(k) for k in lengths} or {0: 1}
            S.check(got == want, 'number of spells of each length')
        else:
            want = summarize(summary, lengths)
            S.check(S.and_(ov[i] - want <= 1e-9, want - ov[i] <= 1e-9), 'summary of the spell lengths')
    unchanged(S, f, 'data', ref, rm)


duration.swaps = [(k.parms_definition, {i: _Float if j is float else j for i, j in k.parms_definition.items()})
                  for k in (Duration, FrequencyDuration)]
SUMMARIES = ['max', 'min', 'mean', 'median', 'std', 'freq']
ORDERS = [(('x', 'time'), {}), (('time', 'level', 'x'), {'x': 1}), (('realization', 'time', 'x'), {'x': 1}), (('time', 'y', 'x'), {})]


def tasks(tier):
    th = tier == 'thorough'
    out = []
    one = {'x': 1}
    for k, s in enumerate(SUMMARIES):
        op = sorted(OPS)[k % 4]
        out.append((duration, {'op': op, 'summary': s, 'nt': 8 if th else 6, 'dims': ('time', 'x'), 'sizes': one, 'grouping': 'all',
                               'months': [1] * (8 if th else 6)}))
        out.append((duration, {'op': op, 'summary': s, 'nt': 4 if th else 3, 'dims': ('time', 'x'), 'sizes': one, 'groups': 2, 'masked': 1}))
        out.append((duration, {'op': op, 'summary': s, 'nt': 5 if th else 4, 'dims': ('time', 'x'), 'sizes': one, 'groups': 2}))
        for j, (dims, sizes) in enumerate(ORDERS):
            out.append((duration, {'op': sorted(OPS)[(k + j) % 4], 'summary': s, 'nt': 2, 'dims': dims, 'sizes': sizes, 'masked': 1,
                                   'months': [1, 2] if j % 2 else [1, 1]}))
    for op in sorted(OPS):
        out.append((duration, {'op': op, 'summary': 'max', 'nt': 4, 'dims': ('time', 'x'), 'sizes': one, 'masked': 1, 'months': [1] * 4}))
    return out
