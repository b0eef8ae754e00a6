"""C04: slicing a variable slices its data, mask, bounds and siblings alike."""
import numpy as np
from ocgis import Dimension, Variable, VariableCollection

from .common import conc_index, nested, take

FUNCTIONS = ['ocgis.variable.base.AbstractContainer.__getitem__', 'Variable._getitem_main_', 'Variable.copy',
             'VariableCollection.__getitem__', 'VariableCollection.copy', 'VariableCollection.add_variable',
             'Dimension.__getitem__', 'ocgis.util.helpers.get_formatted_slice', 'get_optimal_slice_from_array', 'get_dslice']
BOUNDS = 'dimension lengths 1..3, one to three dimensions; every integer, start:stop, stepped, boolean and index-array selection ' \
         '(up to 2 indices) on one dimension with a reduced set on the other; arbitrary real values; arbitrary masks'


def build(S, na, nb, masked):
    """A collection with variables on (a, b), (b, a), (b,), (c,) and a scalar; b has bounds."""
    S.lazy()
    a, b, c = Dimension('a', na), Dimension('b', nb, src_idx=(10, 10 + nb)), Dimension('c', 2)
    data = {'ab': ('a', 'b'), 'ba': ('b', 'a'), 'b': ('b',), 'b_bounds': ('b', 'nb'), 'c': ('c',), 'scalar': ()}
    sizes = {'a': na, 'b': nb, 'c': 2, 'nb': 2}
    dims = {'a': a, 'b': b, 'c': c, 'nb': Dimension('nb', 2)}
    ref, vs = {}, {}
    for name, dn in data.items():
        shp = tuple(sizes[d] for d in dn)
        if dn:
            v = S.reals('v_' + name, shp)
        else:
            v = S.array(S.real('v_scalar'), 'f')
        m = None
        if masked and name in ('ab', 'ba', 'b'):
            m = S.bools('m_' + name, shp)
        ref[name] = (dn, nested(v), None if m is None else nested(m))
        vs[name] = dict(name=name, value=v, dimensions=[dims[d] for d in dn], mask=m)
    vc = VariableCollection()
    bounds = Variable(**vs.pop('b_bounds'))
    for name in ('ab', 'ba', 'b', 'c', 'scalar'):
        kw = vs[name]
        if name == 'b':
            mask = kw.pop('mask')
            var = Variable(**kw)
            var.set_bounds(bounds)
            if mask is not None:
                # masks on bounded variables carry over to the bounds
                pattern = S.mask('mb', nb)
                var.set_mask(pattern)
                ref['b'] = ref['b'][:2] + (nested(pattern),)
                ref['b_bounds'] = ref['b_bounds'][:2] + ([[k, k] for k in nested(pattern)],)
        else:
            var = Variable(**kw)
        vc.add_variable(var, force=True)
    return vc, ref, sizes


def verify(S, vc, ref, sel, sizes, what):
    S.check(set(vc.keys()) == set(ref.keys()), what + ': members')
    for name, (dn, val, msk) in ref.items():
        var = vc[name]
        pos = [sel.get(d, list(range(sizes[d]))) for d in dn]
        S.check(tuple(d.name for d in var.dimensions) == dn, what + ': dimension names ' + name)
        shp = tuple(len(p) for p in pos)
        got = var.get_value()
        S.check(np.shape(got) == shp and tuple(len(d) for d in var.dimensions) == shp and tuple(var.shape) == shp,
                what + ': shape ' + name)
        if 0 in shp:
            continue
        S.check(S.arr_eq(got, take(val, pos)), what + ': values ' + name)
        gm = var.get_mask()
        if msk is None:
            S.check(gm is None or S.not_(S.any_(np.asarray(gm).ravel().tolist())), what + ': no mask ' + name)
        else:
            S.check(np.shape(gm) == shp, what + ': mask shape ' + name)
            S.check(S.all_(S.iff(g, w) for g, w in zip(flat(gm), flat(take(msk, pos)))), what + ': mask ' + name)
    S.check(vc['b'].bounds is not None and vc['b'].bounds.name == 'b_bounds', what + ': bounds stay attached')
    src = vc.dimensions['b']._src_idx
    if src is not None and 'b' in sel and len(sel['b']) > 0:
        want = [10 + i for i in sel['b']]
        have = list(src) if isinstance(src, np.ndarray) else list(range(int(src[0]), int(src[1])))
        S.check([int(h) for h in have] == want, what + ': source indices')


def flat(x):
    out = []

    def rec(v):
        if isinstance(v, (list, tuple, np.ndarray)) and not (isinstance(v, np.ndarray) and v.ndim == 0):
            for i in v:
                rec(i)
        else:
            out.append(v.item() if isinstance(v, np.ndarray) else v)

    rec(x)
    return out


def by_position(S, na, nb, ka, kb, masked, target):
    """Index one variable by position; everything sharing its dimensions follows."""
    vc, ref, sizes = build(S, na, nb, masked)
    ia, sa = conc_index(S, 'ia', na, ka, 2)
    ib, sb = conc_index(S, 'ib', nb, kb, 2)
    sel = {'a': sa, 'b': sb}
    if target == 'ab':
        got = vc['ab'][ia, ib]
    elif target == 'ba':
        got = vc['ba'][ib, ia]
    else:
        got = vc['b'][ib]
        sel = {'b': sb}
    S.check(got.name == target, 'name kept')
    verify(S, got.parent, ref, sel, sizes, 'sliced')
    verify(S, vc, ref, {}, sizes, 'original')


def by_name(S, na, nb, ka, kb, masked, which):
    vc, ref, sizes = build(S, na, nb, masked)
    idx, sel = {}, {}
    if 'a' in which:
        idx['a'], sel['a'] = conc_index(S, 'ia', na, ka, 2)
    if 'b' in which:
        idx['b'], sel['b'] = conc_index(S, 'ib', nb, kb, 2)
    got = vc[idx]
    verify(S, got, ref, sel, sizes, 'sliced')
    verify(S, vc, ref, {}, sizes, 'original')


def chain(S, na, nb, k1, k2):
    """Two slices in a row, the second on the result of the first."""
    vc, ref, sizes = build(S, na, nb, False)
    i1, s1 = conc_index(S, 'i1', nb, (k1,), 2)
    S.assume(len(s1) > 0)
    one = vc['b'][i1].parent
    i2, s2 = conc_index(S, 'i2', len(s1), (k2,), 2)
    two = one['ba'][i2, :].parent
    verify(S, two, ref, {'b': [s1[i] for i in s2]}, sizes, 'sliced twice')
    verify(S, one, ref, {'b': s1}, sizes, 'sliced once')


def three(S, kinds):
    """A lone three-dimensional variable."""
    S.lazy()
    shp = (2, 2, 2)
    v, m = S.reals('v', shp), S.bools('m', shp)
    rv, rm = nested(v), nested(m)
    var = Variable(name='v', value=v, mask=m, dimensions=['x', 'y', 'z'])
    idx, pos = zip(*[conc_index(S, 'i%d' % d, 2, (kinds[d],), 2) for d in range(3)])
    got = var[idx]
    shp2 = tuple(len(p) for p in pos)
    S.check(np.shape(got.get_value()) == shp2 and tuple(len(d) for d in got.dimensions) == shp2, 'shape')
    if 0 not in shp2:
        S.check(S.arr_eq(got.get_value(), take(rv, pos)), 'values')
        S.check(S.all_(S.iff(a, b) for a, b in zip(flat(got.get_mask()), flat(take(rm, pos)))), 'mask')
    S.check(S.arr_eq(var.get_value(), np.array(rv, dtype=object) if S.symbolic else np.array(rv)), 'original unchanged')


def tasks(tier):
    t = tier == 'thorough'
    out = []
    simple = ('int', 'bool')
    rich = [('slice',), ('step',), ('int', 'bool', 'fancy', 'list')]
    for na, nb in ((1, 2), (2, 1), (2, 2), (2, 3), (3, 2)) if t else ((1, 2), (2, 2)):
        for k in rich:
            if t or k != ('step',):
                out.append((by_position, {'na': na, 'nb': nb, 'ka': simple, 'kb': k, 'masked': False, 'target': 'ab'}))
            if t:
                out.append((by_position, {'na': na, 'nb': nb, 'ka': k, 'kb': simple, 'masked': False, 'target': 'ab'}))
            out.append((by_name, {'na': na, 'nb': nb, 'ka': k, 'kb': ('int',), 'masked': False, 'which': 'a'}))
        out.append((by_position, {'na': na, 'nb': nb, 'ka': ('fancy',), 'kb': ('fancy',), 'masked': False, 'target': 'ba'}))
        out.append((by_name, {'na': na, 'nb': nb, 'ka': ('int',), 'kb': simple, 'masked': True, 'which': 'ab'}))
    for k in rich:
        out.append((by_position, {'na': 1, 'nb': 3 if t else 2, 'ka': ('int',), 'kb': k, 'masked': k != ('step',) or t, 'target': 'b'}))
    out.append((by_position, {'na': 1, 'nb': 3, 'ka': ('int',), 'kb': ('int', 'bool', 'fancy'), 'masked': False, 'target': 'b'}))
    for k1, k2 in (('slice', 'int'), ('bool', 'slice'), ('fancy', 'slice'), ('slice', 'bool')):
        out.append((chain, {'na': 1, 'nb': 3 if t else 2, 'k1': k1, 'k2': k2}))
    for k in (('slice', 'int', 'bool'), ('int', 'fancy', 'int'), ('bool', 'bool', 'bool'), ('fancy', 'int', 'bool')):
        out.append((three, {'kinds': k}))
    return out
