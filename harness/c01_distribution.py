"""C01: distributing a dimension over workers is an exact partition."""
from symex.session import sym_int, sym_float

from ocgis import Dimension
from ocgis.vmachine.mpi import OcgDist, create_nd_slices, create_slices, get_optimal_splits, get_rank_bounds

FUNCTIONS = ['ocgis.vmachine.mpi.get_rank_bounds', 'ocgis.vmachine.mpi.OcgDist.update_dimension_bounds',
             'ocgis.vmachine.mpi.OcgDist.add_dimension', 'ocgis.vmachine.mpi.OcgDist.get_empty_ranks',
             'ocgis.vmachine.mpi.create_slices', 'ocgis.vmachine.mpi.create_nd_slices',
             'ocgis.vmachine.mpi.get_optimal_splits', 'ocgis.variable.dimension.Dimension.set_size',
             'ocgis.variable.dimension.slice_source_index']
BOUNDS = 'rank bounds: any length 0..10**9, 1..8 workers (thorough 1..24); distributions: 1..4 workers (thorough 1..8), ' \
         'up to 3 dimensions of any length 0..10**6, minimum elements 1..4; slices: length 1..12 (thorough 30), any split'

_M = 'ocgis.vmachine.mpi'
_P = {(_M, 'int'): sym_int, (_M, 'float'): sym_float}


def rank_bounds(S, size):
    n = S.int('n', 0, 10 ** 9)
    prev = 0
    ended = False
    sizes = []
    for rank in range(size):
        b = get_rank_bounds(n, size, rank)
        if b is None:
            ended = True
            sizes.append(0)
            continue
        S.check(not ended, 'non-empty ranks come first')
        lo, hi = b
        S.check(S.and_(lo == prev, hi > lo), 'contiguous')
        sizes.append(hi - lo)
        prev = hi
    S.check(prev == n, 'covers everything')
    for i in range(size - 1):
        S.check(S.and_(sizes[i] - sizes[i + 1] >= 0, sizes[0] - sizes[i + 1] <= 1), 'balanced')
    S.check(get_rank_bounds(n, size, size) is None, 'no bounds outside the group')


rank_bounds.patches = _P


def dist(S, size, ndist, nother, unlimited=False):
    lengths = [S.int('n%d' % i, 0 if i else 1, 10 ** 6) for i in range(ndist)]
    others = [S.int('m%d' % i, 1, 10 ** 6) for i in range(nother)]
    min_elements = S.int('min_elements', 1, 4)
    od = OcgDist(size=size, ranks=list(range(size)))
    for i, n in enumerate(lengths):
        if unlimited:
            od.create_dimension('d%d' % i, size_current=n, dist=True, src_idx='auto')
        else:
            od.create_dimension('d%d' % i, size=n, dist=True, src_idx='auto')
    for i, m in enumerate(others):
        od.create_dimension('o%d' % i, size=m, dist=False)
    od.update_dimension_bounds(min_elements=min_elements)
    chosen = set()
    for r in range(size):
        dims = od.get_group(rank=r)['dimensions']
        S.check(set(dims) == set(['d%d' % i for i in range(ndist)] + ['o%d' % i for i in range(nother)]), 'dimensions kept')
        for i, m in enumerate(others):
            S.check(S.and_(dims['o%d' % i].size == m, not dims['o%d' % i].dist), 'undistributed dimensions untouched')
        d = [k for k, v in dims.items() if v.dist]
        S.check(len(d) == 1, 'exactly one dimension stays distributed')
        chosen.add(d[0])
        for i, n in enumerate(lengths):
            if 'd%d' % i != d[0]:
                S.check(dims['d%d' % i].size_current == n, 'other lengths kept')
    S.check(len(chosen) == 1, 'all ranks agree on the distributed dimension')
    name = chosen.pop()
    n = lengths[int(name[1:])]
    S.check(S.all_([m <= n for m in lengths]), 'longest dimension is distributed')
    prev = 0
    empties = od.get_empty_ranks()
    live = 0
    for r in range(size):
        dim = od.get_dimension(name, rank=r)
        if dim.is_empty:
            S.check(r in empties, 'empty ranks reported')
            S.check(S.and_(dim.size_current == 0, dim.bounds_local[0] == dim.bounds_local[1]), 'empty means no elements')
            continue
        live += 1
        S.check(r not in empties, 'live ranks not reported empty')
        lo, hi = dim.bounds_local
        S.check(S.and_(lo == prev, hi > lo), 'local bounds contiguous')
        S.check(dim.size_current == hi - lo, 'local length matches local bounds')
        S.check(S.and_(dim.bounds_global[0] == 0, dim.bounds_global[1] == n), 'global bounds')
        S.check(S.and_(dim._src_idx[0] == lo, dim._src_idx[1] == hi), 'source indices match local bounds')
        prev = hi
    S.check(prev == n, 'every element is owned by a rank')
    S.check(set(empties) | set(od.get_empty_ranks(inverse=True)) == set(range(size)), 'empty and live ranks partition')
    S.check(S.or_(live == size, (live + 1) * min_elements > n), 'workers are used as far as the minimum allows')
    if live > 1:
        for r in range(size):
            dim = od.get_dimension(name, rank=r)
            if not dim.is_empty:
                S.check(dim.size_current >= min_elements, 'minimum elements per rank')


dist.patches = dict(_P)


def slices(S, nmax):
    n = S.cint('n', 1, nmax)
    k = S.cint('k', 1, nmax)
    S.assume(k <= n)
    out = create_slices(n, k)
    S.check(len(out) == k, 'number of slices')
    owner = [sum(1 for s in out if i in range(n)[s]) for i in range(n)]
    S.check(owner == [1] * n, 'slices partition the range')
    x = S.int('x', 0, nmax)
    S.assume(x < n)
    S.check(S.count([S.and_(s.start <= x, x < s.stop) for s in out]) == 1, 'every index in exactly one slice')


def nd_slices(S, nmax):
    shape = (S.cint('n0', 1, nmax), S.cint('n1', 1, nmax))
    splits = (S.cint('k0', 1, nmax), S.cint('k1', 1, nmax))
    S.assume(splits[0] <= shape[0])
    S.assume(splits[1] <= shape[1])
    out = create_nd_slices(splits, shape)
    S.check(len(out) == splits[0] * splits[1], 'number of tiles')
    y, x = S.int('y', 0, nmax), S.int('x', 0, nmax)
    S.assume(S.and_(y < shape[0], x < shape[1]))
    hits = S.count([S.and_(a.start <= y, y < a.stop, b.start <= x, x < b.stop) for a, b in out])
    S.check(hits == 1, 'every cell in exactly one tile')


def optimal_splits(S, ndim):
    shape = tuple(S.cint('n%d' % i, 1, 5) for i in range(ndim))
    size = S.int('size', 1, 40)
    splits = get_optimal_splits(size if ndim == 1 else int(size), shape)
    prod = 1
    for s in splits:
        prod = prod * s
    S.check(prod <= size, 'no more pieces than workers')
    for s, n in zip(splits, shape):
        S.check(S.and_(s >= 1, s <= n), 'splits fit the axis')


def tasks(tier):
    thorough = tier == 'thorough'
    out = []
    for size in range(1, 25 if thorough else 9):
        out.append((rank_bounds, {'size': size}))
    for size in range(1, 9 if thorough else 5):
        for ndist, nother in ((1, 0), (1, 1), (2, 0), (2, 1)) + (((3, 0),) if thorough else ()):
            out.append((dist, {'size': size, 'ndist': ndist, 'nother': nother}))
        out.append((dist, {'size': size, 'ndist': 1, 'nother': 1, 'unlimited': True}))
    out.append((slices, {'nmax': 30 if thorough else 12}))
    out.append((nd_slices, {'nmax': 6 if thorough else 4}))
    for ndim in (1, 2) + ((3,) if thorough else ()):
        out.append((optimal_splits, {'ndim': ndim}))
    return out
