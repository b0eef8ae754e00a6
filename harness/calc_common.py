"""Fields for the calculation harnesses."""
import datetime

import numpy as np
from ocgis import Dimension, Field, TemporalVariable, Variable

from .common import nested

SIZES = {'time': 0, 'level': 2, 'realization': 2, 'y': 1, 'x': 2, 'other': 2}


def make_field(S, nt, dims, group=2, masked=0, sizes=None, name='data', units=None, months=None, values=None, mask=None):
    """
    A field with one data variable on ``dims`` whose time steps fall in any of ``group`` months.  ``masked`` is the number
    of cells with an arbitrary mask along time.  Returns the field, values and masks as nested dictionaries keyed by index.
    """
    sizes = dict(SIZES, time=nt, **(sizes or {}))
    dd = {k: Dimension(k, size=sizes[k]) for k in dims}
    if months is None:
        months = [S.cint('month%d' % i, 1, group) for i in range(nt)]
    dates = np.array([datetime.datetime(2000, m, 1 + i) for i, m in enumerate(months)] + [None], dtype=object)[:-1]
    f = Field()
    f.add_variable(TemporalVariable(name='time', value=dates, dimensions=dd['time']))
    f.set_time(f['time'])
    for k, c in (('level', 'level'), ('realization', 'realization'), ('y', 'y'), ('x', 'x')):
        if k in dims:
            f.add_variable(Variable(k, value=np.arange(float(sizes[k])), dimensions=dd[k]))
            f.dimension_map.set_variable(c, f[k])
    shape = tuple(sizes[k] for k in dims)
    v = S.reals(name, shape) if values is None else values(shape)
    m = np.zeros(shape, dtype=bool)
    if mask is not None:
        m[...] = mask(shape)
    elif masked:
        # The cells are spread over the other dimensions.
        ax = dims.index('time')
        other = [i for i in np.ndindex(*shape) if i[ax] == 0]
        for k in range(masked):
            cell = list(other[(k * 3) % len(other)])
            for t in range(nt):
                cell[ax] = t
                m[tuple(cell)] = S.cbool('m%d_%d' % (k, t))
    ref = {i: v[i] for i in np.ndindex(*shape)}
    rm = {i: bool(m[i]) for i in np.ndindex(*shape)}
    f.add_variable(Variable(name, value=v, mask=m if (masked or mask is not None) else None, dimensions=[dd[k] for k in dims],
                            units=units), is_data=True)
    return f, ref, rm, months, shape


def members(ref, rm, cell, axis, steps):
    """The unmasked values of a cell at the given time steps."""
    out = []
    for t in steps:
        i = cell[:axis] + (t,) + cell[axis + 1:]
        if not rm[i]:
            out.append(ref[i])
    return out


def groups_of(S, tgd, months):
    """The steps of each group according to the group variable, checked to be those of one month each."""
    out = []
    seen = []
    for d in tgd.dgroups:
        steps = [int(i) for i in np.arange(len(months))[d]]
        S.check(len(steps) > 0 and len({months[i] for i in steps}) == 1, 'group of one month')
        out.append(steps)
        seen += steps
    S.check(sorted(seen) == list(range(len(months))), 'groups partition the steps')
    S.check(len({months[g[0]] for g in out}) == len(out), 'one group per month')
    return out


def unchanged(S, field, name, ref, rm):
    v, m = field[name].get_value(), field[name].get_mask()
    for i in ref:
        S.check(S.eq(v[i], ref[i]), 'input values kept')
        S.check((False if m is None else bool(m[i])) == rm[i], 'input mask kept')
