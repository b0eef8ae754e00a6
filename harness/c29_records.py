"""C29: record iteration yields every element once with its own values."""
from collections import OrderedDict

import numpy as np
from ocgis import Dimension, Field, GeometryVariable, TemporalVariable, Variable, VariableCollection
from ocgis.driver.registry import get_driver_class
from ocgis.variable.iterator import Iterator
from shapely.geometry import Point

from .common import nested

FUNCTIONS = ['ocgis.variable.iterator.{Iterator,get_record,get_followers,get_repeaters}', 'ocgis.variable.base.Variable.get_iter', 'VariableCollection.iter',
             'ocgis.collection.field.Field.iter', 'ocgis.variable.geom.GeometryVariable.get_iter', 'ocgis.variable.temporal.TemporalVariable.get_iter',
             'ocgis.variable.base.{get_bounds_order_1d,get_bounds_names_1d}']
BOUNDS = 'up to three dimensions in any tested order with lengths up to 3, up to three variables on subsets of the dimensions, any values, masks of up to two ' \
         'elements per variable, bounds in either order, with and without geometries, repeated values, melting, and the header mapping of fields'
OUTSIDE = 'formatting of values for CSV and vector files, masked coordinates of time and level, an empty field'

SIZE = {'t': 2, 'l': 2, 'g': 2, 'x': 3, 'r': 1}


def variable(S, name, dims, mask, klass=Variable, **kw):
    shape = tuple(SIZE[d] for d in dims)
    v = S.reals(name, shape)
    ref = {i: v[i] for i in np.ndindex(*shape)}
    m = np.zeros(shape, dtype=bool)
    for k, i in enumerate(np.ndindex(*shape)):
        if k < mask:
            m[i] = S.cbool('%s.m%d' % (name, k))
    rm = {i: bool(m[i]) for i in np.ndindex(*shape)}
    if not dims:
        v = S.array(ref[()], 'f')
    return klass(name=name, value=v, mask=m if mask else None, dimensions=dims, **kw), ref, rm


def at(dims, lead, idx):
    """Index of a variable on some of the leading dimensions."""
    return tuple(idx[lead.index(d)] for d in dims)


def same(S, a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(b, str):
        return a == b
    if isinstance(b, tuple):
        return (a.year, a.month, a.day) == b
    return S.eq(a, b)


def match(S, got, want, label):
    """Records with the same keys in the same order and the same values."""
    S.check(len(got) == len(want), label + ' number of records')
    for g, w in zip(got, want):
        S.check(list(g.keys()) == [k for k, _ in w], label + ' names')
        S.check(S.all_([same(S, g[k], v) for k, v in w if k in g] + [True]), label + ' values')


def collection(S, lead, others, mask=1, omask=1, allow=True, melted=False, repeat=(), clobber=True, primary=None, formatter=False):
    """A leading variable and followers on any of its dimensions."""
    vc = VariableCollection()
    made = OrderedDict()
    for name, dims, m in [('a', lead, mask)] + [('f%d' % k, d, omask) for k, d in enumerate(others)]:
        kw = {'repeat_record': [('rep_' + name, 'r' + name)]} if name in repeat else {}
        var, ref, rm = variable(S, name, dims, m, **kw)
        vc.add_variable(var)
        made[name] = (dims, ref, rm)
    names = list(made)
    kw = {}
    if melted:
        kw['melted'] = [vc[n] for n in names]
    if not clobber:
        kw['clobber_masked'] = False
    if primary:
        kw['primary_mask'] = vc[primary]
    if formatter:
        kw['formatter'] = lambda name, value, mask: [(name, value), (name + '?', mask)]
    want = []
    for idx in np.ndindex(*[SIZE[d] for d in lead]):
        one = []
        skip = False
        for name, (dims, ref, rm) in made.items():
            j = at(dims, lead, idx)
            if name in repeat:
                one.append(('rep_' + name, 'r' + name))
            one.append((name, ref[j] if not rm[j] or (not clobber and name == 'a') else None))
            if formatter and name == 'a':
                one.append((name + '?', rm[j]))
            skip = skip or (name == (primary or 'a') and rm[j])
        if skip and not allow:
            continue
        if not melted:
            want.append(one)
        else:
            # Repeated values of all variables stay with the record, then name and value.
            base = [i for i in one if i[0] not in made]
            vals = dict(i for i in one if i[0] in made)
            for name in names:
                want.append(base + [('VARIABLE', name), ('VALUE', vals[name])])
    for again in (0, 1):
        it = Iterator(vc['a'], followers=[vc[n] for n in names[1:]], allow_masked=allow, **kw)
        match(S, list(it), want, 'records')
    match(S, list(it), want, 'iterated again')
    for n in names:
        S.check((vc[n].repeat_record or []) == ([('rep_' + n, 'r' + n)] if n in repeat else []), 'variables unchanged')


def single(S, dims=('x',), mask=1, bounds=None, add=True, repeat=False, extra=False, allow=True, order=None, klass=Variable):
    """One variable with its bounds."""
    kw = {'repeat_record': [('rep', 1)]} if repeat else {}
    var, ref, rm = variable(S, 'a', dims, mask, klass, **kw)
    n = SIZE[dims[0]]
    b = None
    if bounds:
        b = S.reals('b', (n, 2))
        for i in range(n):
            if order == 'up':
                S.assume(b[i, 0] < b[i, 1])
            elif order == 'down':
                S.assume(b[i, 0] > b[i, 1])
        bref = nested(b)
        var.set_bounds(Variable('bnds', value=b, dimensions=[dims[0], 'two']))
    up = order == 'up'
    for again in (0, 1):
        args = {'add_bounds': add}
        if extra:
            args['repeaters'] = [('first', 0)]
        got = list(var.get_iter(allow_masked=allow, **args))
        want = []
        for i in np.ndindex(*[SIZE[d] for d in dims]):
            if rm[i] and not allow:
                continue
            r = ([('first', 0)] if extra else []) + ([('rep', 1)] if repeat else []) + [('a', None if rm[i] else ref[i])]
            if bounds and add:
                lo, hi = bref[i[0]] if up else bref[i[0]][::-1]
                r += [('lb_a', lo), ('ub_a', hi)]
            want.append(r)
        match(S, got, want, 'records')
        S.check((var.repeat_record or []) == ([('rep', 1)] if repeat else []), 'variable unchanged')


def make_field(S, dims, second, geom, level, time, real, masks, gmask, tbounds, lbounds, order):
    f = Field()
    exp = OrderedDict()
    for k, d in enumerate([dims] + ([second] if second else [])):
        name = 'data%d' % k
        var, ref, rm = variable(S, name, d, masks[k], parent=f)
        f.add_variable(var, is_data=True, force=True)
        exp[name] = (d, ref, rm)
    if geom:
        pts = [Point(i, i + 1) for i in range(SIZE['g'])]
        g = np.empty(SIZE['g'], dtype=object)
        g[:] = pts
        gm = np.array([S.cbool('gm%d' % k) if k < gmask else False for k in range(SIZE['g'])])
        gv = GeometryVariable(name='geom', value=g, dimensions=['g'], mask=gm if gmask else None, parent=f)
        if geom == 'ugid':
            gv.set_ugid(Variable('ID', value=[11, 12], dimensions=['g']))
        f.set_geom(gv)
        exp['geom'] = (('g',), {(i,): p for i, p in enumerate(pts)}, {(i,): bool(gm[i]) for i in range(SIZE['g'])})
    if real:
        var, ref, rm = variable(S, 'member', ('r',), 0, parent=f)
        f.set_realization(var) if hasattr(f, 'set_realization') else f.dimension_map.set_variable('realization', var)
        exp['member'] = (('r',), ref, rm)
        if real == 'bounds':
            b = S.reals('member_b', (1, 2))
            var.set_bounds(Variable('member_bnds', value=b, dimensions=['r', 'two']))
    if time:
        t = TemporalVariable(name='when', value=S.array([1., 40.], 'f'), dimensions='t', attrs={'units': 'days since 2001-01-01', 'calendar': 'standard'}, parent=f)
        if tbounds:
            t.set_bounds(Variable('when_b', value=S.array([[0., 2.], [39., 41.]], 'f'), dimensions=['t', 'two']))
        f.set_time(t)
    if level:
        var, ref, rm = variable(S, 'depth', ('l',), 0, parent=f)
        exp['depth'] = (('l',), ref, rm)
        if lbounds:
            b = S.reals('depth_b', (2, 2))
            for i in range(2):
                S.assume(b[i, 0] < b[i, 1] if order == 'up' else b[i, 0] > b[i, 1])
            exp['depth_b'] = nested(b)
            var.set_bounds(Variable('depth_bnds', value=b, dimensions=['l', 'two']))
        f.set_level(var) if hasattr(f, 'set_level') else f.dimension_map.set_variable('level', var)
    return f, exp


def field(S, dims, second=None, geom='', level=False, time=False, real='', masks=(1, 0), gmask=0, tbounds=False, lbounds=False, order='up', melted=False,
          allow=None, standardize=True, repeat=False):
    """A field: its data variables, geometry, realization, time and level."""
    f, exp = make_field(S, dims, second, geom, level, time, real, masks, gmask, tbounds, lbounds, order)
    kw = {}
    if allow is not None:
        kw['allow_masked'] = allow
    if melted:
        kw['melted'] = True
    if not standardize:
        kw['standardize'] = False
    if repeat:
        kw['repeaters'] = [('run', 'one')]
    days = [(2001, 1, 2), (2001, 2, 10)]
    tb = [[(2001, 1, 1), (2001, 1, 3)], [(2001, 2, 9), (2001, 2, 11)]]
    want = []
    names = ['data0'] + (['data1'] if second else [])
    for idx in np.ndindex(*[SIZE[d] for d in dims]):
        val, msk = {}, {}
        for k in exp:
            if k == 'depth_b':
                continue
            j = at(exp[k][0], dims, idx)
            msk[k] = exp[k][2][j]
            val[k] = None if msk[k] else exp[k][1][j]
        if not allow:
            if geom and msk['geom']:
                continue
            if msk['data0']:
                continue
        head = []
        if repeat:
            head.append(('run', 'one'))
        uid = []
        if geom == 'ugid' and standardize:
            uid = [('ID', 11 + idx[dims.index('g')])]
        coords = []
        if real:
            coords.append(('RLZ' if standardize else 'member', val['member']))
        if time:
            i = idx[dims.index('t')]
            coords.append(('TIME' if standardize else 'when', days[i]))
            if tbounds:
                coords += list(zip(('LB_TIME', 'UB_TIME') if standardize else ('lb_when', 'ub_when'), tb[i]))
        if level:
            i = idx[dims.index('l')]
            coords.append(('LEVEL' if standardize else 'depth', val['depth']))
            if lbounds:
                lo, hi = exp['depth_b'][i] if order == 'up' else exp['depth_b'][i][::-1]
                coords += list(zip(('LB_LEVEL', 'UB_LEVEL') if standardize else ('lb_depth', 'ub_depth'), (lo, hi)))
        for n in (names if melted else [None]):
            vals = [('VARIABLE', n), ('VALUE', val[n])] if melted else [(k, val[k]) for k in names]
            want.append((val.get('geom'), dict(head + uid + coords + vals)))
    for again in (0, 1):
        got = list(f.iter(**dict(kw)))
        S.check(len(got) == len(want), 'number of records')
        for (gg, g), (wg, w) in zip(got, want):
            S.check(gg is wg or gg == wg, 'geometry of the record')
            S.check(set(g.keys()) == set(w.keys()), 'names of the record')
            S.check(S.all_([same(S, g[k], w[k]) for k in w if k in g] + [True]), 'values of the record')
    if standardize and got:
        S.check([k for k in got[0][1] if k in ('ID', 'RLZ', 'TIME', 'LB_TIME', 'UB_TIME', 'LEVEL', 'LB_LEVEL', 'UB_LEVEL')] ==
                [k for k in ('ID', 'RLZ', 'TIME', 'LB_TIME', 'UB_TIME', 'LEVEL', 'LB_LEVEL', 'UB_LEVEL') if k in got[0][1]], 'order of the headers')


def tasks(tier):
    out = []
    for allow in (True, False):
        for lead, others in ((('t', 'x'), [('x',), ('t',)]), (('t', 'x'), [('x', 't'), ()]), (('l', 't', 'g'), [('g', 'l'), ('t',)]), (('x',), [()]), (('x',), []),
                             (('t', 'l'), [('t', 'l'), ('l', 't')])):
            if others:
                out.append((collection, {'lead': lead, 'others': others, 'allow': allow}))
                out.append((collection, {'lead': lead, 'others': others, 'allow': allow, 'melted': True, 'repeat': ('a', 'f0')}))
                out.append((collection, {'lead': lead, 'others': others, 'allow': allow, 'primary': 'f0', 'repeat': ('f0',)}))
        out.append((collection, {'lead': ('t', 'x'), 'others': [('x',)], 'allow': allow, 'clobber': False, 'formatter': True}))
        for bounds, add in ((False, False), (False, True), (True, False), (True, True)):
            for order in (('up', 'down') if bounds and add else (None,)):
                out.append((single, {'bounds': bounds, 'add': add, 'allow': allow, 'order': order, 'mask': 0 if bounds and add else 2}))
        out.append((single, {'dims': ('t', 'x'), 'allow': allow, 'repeat': True}))
        out.append((single, {'dims': ('x',), 'allow': allow, 'repeat': True, 'extra': True}))
        out.append((single, {'dims': ('x', 't'), 'allow': allow, 'extra': True}))
    for allow in (None, True, False):
        out.append((field, {'dims': ('t', 'g'), 'geom': 'ugid', 'time': True, 'gmask': 2, 'allow': allow}))
        out.append((field, {'dims': ('g', 't'), 'geom': 'geom', 'time': True, 'tbounds': True, 'gmask': 1, 'masks': (2, 1), 'second': ('t', 'g'), 'allow': allow}))
        out.append((field, {'dims': ('r', 'l', 'g'), 'real': 'plain', 'level': True, 'geom': 'ugid', 'gmask': 1, 'lbounds': True, 'allow': allow}))
        out.append((field, {'dims': ('t', 'l'), 'time': True, 'tbounds': True, 'level': True, 'lbounds': True, 'order': 'down', 'allow': allow, 'repeat': True}))
        out.append((field, {'dims': ('t', 'x'), 'time': True, 'second': ('x', 't'), 'masks': (1, 2), 'allow': allow, 'melted': True, 'repeat': True}))
        out.append((field, {'dims': ('t', 'g'), 'second': ('g',), 'masks': (1, 1), 'gmask': 1, 'geom': 'ugid', 'time': True, 'melted': True, 'allow': allow}))
        out.append((field, {'dims': ('t', 'g'), 'geom': 'ugid', 'time': True, 'tbounds': True, 'allow': allow, 'standardize': False, 'gmask': 1}))
    out.append((field, {'dims': ('r', 't'), 'real': 'bounds', 'time': True}))
    return out
