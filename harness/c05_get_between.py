"""C05: value-range subsets select exactly the elements in range."""
import numpy as np
from ocgis import Dimension, Variable, VariableCollection
from ocgis.exc import EmptySubsetError

FUNCTIONS = ['ocgis.variable.base.Variable.get_between', 'Variable.__getitem__', 'VariableCollection.__getitem__']
BOUNDS = 'length 1..4 (thorough 5); values: any reals (any order, ties allowed); bounds: ascending or descending cells, either column ' \
         'order, all touching or all apart, any reals; any range lower <= upper; open and closed limits'
OUTSIDE = 'bounds whose neighbouring cells touch in some places and not in others, overlap, or mix column orders'


def outcome(S, var, lo, hi, **kw):
    try:
        return var.get_between(lo, hi, return_indices=True, **kw)
    except EmptySubsetError:
        return None


def verify(S, got, inside, vals, bnds, n, var, other):
    """``inside`` are conditions; the path has decided them all by now, or the checks below fail."""
    if got is None:
        S.check(S.not_(S.any_(inside)), 'empty-subset error only when nothing matches')
        return
    ret, idx = got
    k = ret.shape[0]
    idx = [int(i) for i in np.asarray(idx).ravel()]
    S.check(len(idx) == k and k > 0, 'one index per element')
    S.check(all(idx[i] < idx[i + 1] for i in range(k - 1)), 'indices in order')
    for i in range(n):
        S.check(inside[i] if i in idx else S.not_(inside[i]), 'exactly the elements in range')
    S.check(S.arr_eq(ret.get_value(), S.array([vals[i] for i in idx], 'f')), 'values')
    S.check(len(ret.dimensions[0]) == k, 'dimension length')
    if bnds is not None:
        S.check(S.arr_eq(ret.bounds.get_value(), S.array([[bnds[i, 0], bnds[i, 1]] for i in idx], 'f')), 'bounds follow')
    S.check(S.arr_eq(ret.parent['other'].get_value(), S.array([other[i] for i in idx], 'f')), 'data follows')
    src = ret.dimensions[0]._src_idx
    if src is not None:
        have = [int(i) for i in src] if isinstance(src, np.ndarray) else list(range(int(src[0]), int(src[1])))
        S.check(have == [i + 5 for i in idx], 'source indices follow')
    S.check(S.arr_eq(var.get_value(), S.array([vals[i] for i in range(n)], 'f')), 'original unchanged')


def make(S, n, vals, bnds):
    d = Dimension('t', n, src_idx=(5, 5 + n))
    var = Variable(name='v', value=vals, dimensions=d)
    other = S.reals('other', n)
    vc = VariableCollection(variables=[var, Variable(name='other', value=other, dimensions=d)])
    var = vc['v']
    if bnds is not None:
        var.set_bounds(Variable(name='vb', value=bnds, dimensions=[d, Dimension('nb', 2)]))
    return var, other


def plain(S, n, closed, ignored_bounds):
    vals = S.reals('v', n)
    ref = [vals[i] for i in range(n)]
    bnds = S.reals('b', (n, 2)) if ignored_bounds else None
    var, other = make(S, n, vals, bnds)
    lo, hi = S.real('lo'), S.real('hi')
    S.assume(lo <= hi)
    got = outcome(S, var, lo, hi, closed=closed, use_bounds=False)
    if closed:
        inside = [S.and_(v > lo, v < hi) for v in ref]
    else:
        inside = [S.and_(v >= lo, v <= hi) for v in ref]
    verify(S, got, inside, ref, bnds, n, var, other)


def bounded(S, n, closed, up, flipped, touching):
    vals, e = S.reals('v', n), S.reals('e', (n, 2))
    ref = [vals[i] for i in range(n)]
    for i in range(n):
        S.assume(e[i, 0] < e[i, 1])
        S.assume(S.and_(vals[i] >= e[i, 0], vals[i] <= e[i, 1]))
    for i in range(n - 1):
        a, b = (i, i + 1) if up else (i + 1, i)
        S.assume(e[a, 1] == e[b, 0] if touching else e[a, 1] < e[b, 0])
    bnds = S.array([[e[i, 1], e[i, 0]] if flipped else [e[i, 0], e[i, 1]] for i in range(n)], 'f')
    copy = S.array([[bnds[i, 0], bnds[i, 1]] for i in range(n)], 'f')
    var, other = make(S, n, vals, bnds)
    lo, hi = S.real('lo'), S.real('hi')
    S.assume(lo <= hi)
    got = outcome(S, var, lo, hi, closed=closed)
    if closed:
        # the cell reaches into the range
        inside = [S.and_(e[i, 1] > lo, e[i, 0] < hi) for i in range(n)]
    elif touching and n > 1:
        # a shared edge belongs to the upper cell, so that no cell is selected by its upper edge alone
        inside = [S.and_(e[i, 1] > lo, e[i, 0] <= hi) for i in range(n)]
    else:
        inside = [S.and_(e[i, 1] >= lo, e[i, 0] <= hi) for i in range(n)]
    verify(S, got, inside, ref, copy, n, var, other)


def scalar(S, closed):
    v, lo, hi = S.real('v'), S.real('lo'), S.real('hi')
    S.assume(lo <= hi)
    var = Variable(name='v', value=S.array(v, 'f'), dimensions=[])
    try:
        ret = var.get_between(lo, hi, closed=closed)
    except EmptySubsetError:
        ret = None
    inside = S.and_(v > lo, v < hi) if closed else S.and_(v >= lo, v <= hi)
    S.check(S.iff(ret is not None, inside), 'scalar in range')
    if ret is not None:
        S.check(S.eq(ret.get_value().item(), v), 'scalar kept')


def tasks(tier):
    m = 5 if tier == 'thorough' else 4
    out = [(scalar, {'closed': c}) for c in (False, True)]
    for n in range(1, m + 1):
        for c in (False, True):
            out.append((plain, {'n': n, 'closed': c, 'ignored_bounds': False}))
            if n == 2:
                out.append((plain, {'n': n, 'closed': c, 'ignored_bounds': True}))
            for up in (True, False):
                for fl in (False, True):
                    for tch in (True, False):
                        if n > 1 or (up and tch):
                            out.append((bounded, {'n': n, 'closed': c, 'up': up, 'flipped': fl, 'touching': tch}))
    return out
