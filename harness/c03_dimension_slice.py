"""C03: slicing a dimension keeps its length and source indices exact."""
import numpy as np
from ocgis import Dimension

from .common import clip_bounds, conc_index, sym_slice

FUNCTIONS = ['ocgis.variable.dimension.Dimension.__getitem__', 'Dimension.__getitem_main__', 'Dimension.set_size',
             'Dimension._src_idx', 'ocgis.variable.dimension.slice_source_index',
             'ocgis.util.helpers.get_formatted_slice', 'ocgis.util.helpers.get_optimal_slice_from_array',
             'Dimension.get_distributed_slice (one worker)']
BOUNDS = 'contiguous slices: length 1..10**6, start/stop in +-10**6 or open, chains of 1..3 slices (bounds-type source ' \
         'indices with any offset); other indices: length 1..3 (thorough 5), every integer, stepped slice, boolean array ' \
         'and index array of up to 2 (thorough 3) entries, array-type source indices with any values'
BIG = 10 ** 6


def contiguous(S, chain, unlimited, dist=False):
    n = S.int('n', 1, BIG)
    off = S.int('offset', 0, BIG)
    kw = dict(size_current=n) if unlimited else dict(size=n)
    dim = Dimension('d', src_idx=(off, off + n), dist=dist, **kw)
    cur, lo, hi = dim, off, off + n
    for c in range(chain):
        start, stop = sym_slice(S, 's%d' % c, -BIG, BIG)
        length = hi - lo
        S.assume(length > 0)
        a, b = clip_bounds(S, start, stop, length)
        new = cur.get_distributed_slice(slice(start, stop)) if dist else cur[slice(start, stop)]
        if dist and new.is_empty:
            S.check(S.and_(a == b, new.size_current == 0), 'empty only when nothing is selected')
            return
        S.check(new.size_current == b - a, 'length')
        S.check(S.or_(unlimited, new.size == b - a), 'size')
        S.check(S.and_(new._src_idx[0] == lo + a, new._src_idx[1] == lo + b), 'source indices')
        S.check(S.and_(new.is_unlimited == unlimited, new.name == 'd'), 'kind of dimension kept')
        S.check(S.and_(cur.size_current == length, cur._src_idx[0] == lo, cur._src_idx[1] == hi), 'original unchanged')
        cur, lo, hi = new, lo + a, lo + b


def no_source(S):
    n = S.int('n', 1, BIG)
    dim = Dimension('d', size=n)
    start, stop = sym_slice(S, 's', -BIG, BIG)
    a, b = clip_bounds(S, start, stop, n)
    new = dim[slice(start, stop)]
    S.check(S.and_(new.size == b - a, new._src_idx is None), 'length without source indices')


def general(S, n, fancy_src, kinds, kmax):
    """All other index notations."""
    if fancy_src:
        src = S.ints('src', n, 0, BIG)
    else:
        off = S.int('offset', 0, BIG)
        src = (off, off + n)
    dim = Dimension('d', size=n, src_idx=src)
    slc, sel = conc_index(S, 'x', n, kinds, kmax)
    new = dim[slc]
    S.check(len(new) == len(sel), 'length')
    expect = [src[i] for i in sel] if fancy_src else [off + i for i in sel]
    si = new._src_idx
    if isinstance(si, np.ndarray):
        S.check(S.arr_eq(si, S.array(expect, kind='i') if len(expect) else np.zeros(0)), 'source indices')
    elif len(sel) > 0:
        S.check(S.and_(si[0] == expect[0], si[1] == expect[-1] + 1, si[1] - si[0] == len(sel)), 'source index bounds')
        S.check(all(sel[i + 1] == sel[i] + 1 for i in range(len(sel) - 1)), 'bounds only for contiguous selections')
    else:
        S.check(si[0] == si[1], 'empty source index bounds')
    S.check(len(dim) == n, 'original unchanged')
    if len(sel) > 0:
        # A second slice composes.
        slc2, sel2 = conc_index(S, 'y', len(sel), ('slice',), kmax)
        two = new[slc2]
        expect2 = [expect[i] for i in sel2]
        S.check(len(two) == len(sel2), 'length of a slice of a slice')
        si = two._src_idx
        if isinstance(si, np.ndarray):
            S.check(S.arr_eq(si, S.array(expect2, kind='i') if len(expect2) else np.zeros(0)), 'source indices compose')
        elif len(sel2) > 0:
            S.check(S.and_(si[0] == expect2[0], si[1] == expect2[-1] + 1), 'source index bounds compose')


def zero_length(S):
    dim = Dimension('d', size=0)
    start, stop = sym_slice(S, 's', -5, 5)
    try:
        dim[slice(start, stop)]
    except IndexError:
        raised = True
    else:
        raised = False
    S.check(raised, 'zero-length dimensions are not slicable')


def tasks(tier):
    t = tier == 'thorough'
    out = [(contiguous, {'chain': c, 'unlimited': u}) for c in range(1, 4 if t else 3) for u in (False, True)]
    out += [(contiguous, {'chain': 1, 'unlimited': False, 'dist': True}), (no_source, {}), (zero_length, {})]
    for n in range(1, 6 if t else 4):
        for f in (False, True):
            for kinds in (('int', 'slice'), ('step',), ('bool',), ('fancy', 'list')):
                out.append((general, {'n': n, 'fancy_src': f, 'kinds': kinds, 'kmax': (3 if n < 5 else 2) if t else 2}))
    return out
