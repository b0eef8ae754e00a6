"""C13: chunks of a destination grid and the source cells they need."""
import numpy as np
from ocgis import Dimension, Field, Variable, vm
from ocgis.constants import SPATIALDECOMP_BUFFER
from ocgis.driver.nc import create_slices_for_dimension
from ocgis.exc import EmptySubsetError
from ocgis.spatial.grid import Grid
from ocgis.spatial.grid_chunker import GridChunker

from . import geo
from .common import nested

FUNCTIONS = ['ocgis.spatial.grid_chunker.GridChunker.{iter_dst_grid_slices,iter_dst_grid_subsets,iter_src_grid_subsets,buffer_value,optimized_bbox_subset}',
             'ocgis.driver.nc.{AbstractDriverNetcdfCF._gc_iter_dst_grid_slices_,create_slices_for_dimension}', 'ocgis.spatial.base.{iter_spatial_decomposition,'
             'create_split_polygons,get_extent_global}', 'ocgis.spatial.spatial_subset.SpatialSubsetOperation.get_spatial_subset', 'ocgis.spatial.grid.Grid.{get_intersects,'
             'extent,resolution_max}']
BOUNDS = 'axes up to 14 cells in up to 7 chunks; destination grids up to 4x2 and source grids up to 3x2 with any coordinates and cell edges (+-1000) or none, any buffer ' \
         'in [0, 100] or the default one, any mask of the destination; decompositions in up to 2x2 parts with any jitter'
ASSUMPTIONS = ['shapely decides intersects, touches, buffer and envelope of boxes exactly (rounding aside); the stand-ins in harness/geo.py implement them',
               'no coordinate lies exactly on an edge between parts of a spatial decomposition (the code moves the edges by random amounts to that end)']
OUTSIDE = 'unstructured grids, ESMF weights, coordinate systems that differ between the grids'


def pieces(S, most, chunks):
    """Slices along one dimension."""
    n = S.cint('n', 1, most)
    k = S.cint('k', 1, chunks)
    got = create_slices_for_dimension(n, k)
    S.check(len(got) == k, 'number of pieces')
    at = 0
    for lo, hi in got:
        if lo == hi:
            continue
        S.check(lo == at and hi > lo, 'pieces follow each other')
        at = hi
    S.check(at == n, 'pieces cover the dimension')


def axis(S, name, n, bounded, up=True, even=False):
    """A coordinate variable with its values and cell edges."""
    if even:
        lo, d = S.real(name + '_lo', -100, 100), S.real(name + '_d', 0.25, 16)
        e = [lo + k * d if up else lo - k * d for k in range(n + 1)]
        v = [(e[k] + e[k + 1]) / 2 for k in range(n)]
    else:
        e = S.reals(name + '_edge', n + 1)
        v = S.reals(name, n)
        for k in range(n):
            S.assume(e[k] < e[k + 1] if up else e[k] > e[k + 1])
            S.assume(S.and_(e[k] < v[k], v[k] < e[k + 1]) if up else S.and_(e[k] > v[k], v[k] > e[k + 1]))
    var = Variable(name, value=S.array(nested(v), 'f'), dimensions=[Dimension(name, n)])
    if bounded:
        var.set_bounds(Variable(name + 'b', value=S.array([[e[k], e[k + 1]] for k in range(n)], 'f'), dimensions=[Dimension(name, n), 'b']))
    return var, list(v), [(S.min(e[k], e[k + 1]), S.max(e[k], e[k + 1])) for k in range(n)]


def fixed(name, n, at=0.):
    return Variable(name, value=[at + k for k in range(n)], dimensions=[Dimension(name, n)])


def grid(S, tag, ny, nx, bounded, up=True, even=False):
    y, yv, ye = axis(S, tag + 'y', ny, bounded, up, even)
    x, xv, xe = axis(S, tag + 'x', nx, bounded, True, even)
    g = Grid(x, y, parent=Field())
    return g, yv, ye, xv, xe


def cover(S, ny, nx, splits, pick=False):
    """The chunks hold every cell of the destination once, with its coordinates."""
    dst, yv, _, xv, _ = grid(S, 'd', ny, nx, False)
    dst.parent.add_variable(Variable('data', value=S.array([[10 * i + j for j in range(nx)] for i in range(ny)], 'f'), dimensions=dst.dimensions))
    src = Grid(fixed('sx', 3), fixed('sy', 3), parent=Field())
    gc = GridChunker(src, dst, nchunks_dst=splits, paths={'wd': '/'})
    seen = np.zeros((ny, nx), dtype=int)
    got = []
    for sub, slc in gc.iter_dst_grid_subsets(yield_slice=True):
        sy, sx = slc['dy'], slc['dx']
        S.check(sy.step in (None, 1) and sx.step in (None, 1) and sy.start < sy.stop and sx.start < sx.stop, 'chunk is a window')
        S.check(tuple(sub.shape) == (sy.stop - sy.start, sx.stop - sx.start), 'shape of the chunk')
        seen[sy, sx] += 1
        for r, i in enumerate(range(sy.start, sy.stop)):
            S.check(S.eq(sub.y.get_value()[r], yv[i]), 'row coordinate of the chunk')
            for c, j in enumerate(range(sx.start, sx.stop)):
                S.check(S.eq(sub.x.get_value()[c], xv[j]), 'column coordinate of the chunk')
                S.check(S.eq(sub.parent['data'].get_value()[r, c], 10 * i + j), 'data of the chunk')
        got.append(slc)
    S.check((seen == 1).all(), 'every cell in one chunk')
    S.check(len(got) <= splits[0] * splits[1], 'number of chunks')
    if ny >= 2 * splits[0] and nx >= 2 * splits[1]:
        S.check(len(got) == splits[0] * splits[1], 'number of chunks asked for')
    S.check(list(gc.iter_dst_grid_slices()) == got, 'slices of the chunks')
    for k in range(len(got)):
        S.check(list(gc.iter_dst_grid_slices(yield_idx=k)) == [got[k]], 'chunk by position')
        one = list(gc.iter_dst_grid_subsets(yield_slice=True, yield_idx=k))
        S.check(len(one) == 1 and one[0][1] == got[k] and S.arr_eq(one[0][0].y.get_value(), yv[got[k]['dy']]), 'chunk subset by position')


def needed(S, dshape, sshape, splits, optimized, dbound=True, sbound=True, buffer='any', even=False, up=True, mask=0):
    """The source chunk of every destination chunk has all cells meeting its buffered extent."""
    S.lazy()
    dst, dyv, dye, dxv, dxe = grid(S, 'd', *dshape, dbound, up, even)
    src, syv, sye, sxv, sxe = grid(S, 's', *sshape, sbound, not up if optimized else up, even)
    if mask:
        m = np.zeros(dshape, dtype=bool)
        for k in range(mask):
            m.flat[k] = S.cbool('m%d' % k)
        dst.set_mask(m)
    kw = {}
    b = None
    if buffer == 'any':
        kw['buffer_value'] = b = S.real('buffer', 0, 100)
    elif buffer == 'resolution':
        kw['src_grid_resolution'], kw['dst_grid_resolution'] = S.real('sres', 0.25, 8), S.real('dres', 0.25, 8)
        b = 2 * S.min(kw['src_grid_resolution'], kw['dst_grid_resolution'])
    gc = GridChunker(src, dst, nchunks_dst=splits, paths={'wd': '/'}, optimized_bbox_subset=optimized, **kw)
    if buffer == 'default':
        # Twice the finer resolution; the resolution of a grid is the coarser one of its axes.
        dy, sy = [S.max(v[1] - v[0], v[0] - v[1]) for v in (dyv, syv)]
        want = 2 * S.min(S.max(dy, dxv[1] - dxv[0]), S.max(sy, sxv[1] - sxv[0]))
        S.check(S.eq(gc.buffer_value, want), 'default buffer')
        b = gc.buffer_value
    opt = gc.optimized_bbox_subset
    S.check(opt == (True if optimized == 'auto' else optimized), 'optimization')
    want_dst = list(gc.iter_dst_grid_slices())
    try:
        n = 0
        for sub, slc, dsub, dslc in gc.iter_src_grid_subsets(yield_dst=True):
            S.check(dslc == want_dst[n], 'destination of the chunk')
            n += 1
            want = wanted(S, dslc, dyv, dye, dxv, dxe, syv, sye, sxv, sxe, dbound, sbound, opt, b)
            ys, xs = slc['sy'], slc['sx']
            S.check(tuple(sub.shape) == (ys.stop - ys.start, xs.stop - xs.start), 'shape of the source chunk')
            sm = sub.get_mask()
            for (i, j), w in want.items():
                if not (ys.start <= i < ys.stop and xs.start <= j < xs.stop):
                    S.check(S.not_(w), 'source cell missing')
                    continue
                r, c = i - ys.start, j - xs.start
                S.check(S.and_(S.eq(sub.y.get_value()[r], syv[i]), S.eq(sub.x.get_value()[c], sxv[j])), 'coordinate of the source cell')
                if sm is not None:
                    S.check(S.not_(S.and_(w, sm[r, c])), 'source cell masked')
        S.check(n == len(want_dst), 'source chunk for every chunk')
    except EmptySubsetError:
        want = wanted(S, want_dst[n], dyv, dye, dxv, dxe, syv, sye, sxv, sxe, dbound, sbound, opt, b)
        S.check(S.not_(S.any_(want.values())), 'reported empty')
    except (ValueError, RuntimeError) as e:
        # Without MPI, aborting is a runtime error.
        if 'all masked' not in str(e) and 'Abort' not in str(e):
            raise
        s = want_dst[n]
        S.check(mask and bool(m[s['dy'], s['dx']].all()), 'reported masked')


def wanted(S, dslc, dyv, dye, dxv, dxe, syv, sye, sxv, sxe, dbound, sbound, opt, b):
    rows, cols = range(len(dyv))[dslc['dy']], range(len(dxv))[dslc['dx']]
    if dbound:
        lo = lambda e, k: (e[k[0]][0], e[k[-1]][0])
        ext = (S.min(*[dxe[j][0] for j in (cols[0], cols[-1])]), S.min(*[dye[i][0] for i in (rows[0], rows[-1])]),
               S.max(*[dxe[j][1] for j in (cols[0], cols[-1])]), S.max(*[dye[i][1] for i in (rows[0], rows[-1])]))
    else:
        ext = (dxv[cols[0]], S.min(dyv[rows[0]], dyv[rows[-1]]), dxv[cols[-1]], S.max(dyv[rows[0]], dyv[rows[-1]]))
    ext = (ext[0] - b, ext[1] - b, ext[2] + b, ext[3] + b)
    ret = {}
    for i in range(len(syv)):
        for j in range(len(sxv)):
            if opt or not sbound:
                p = (sxv[j], syv[i], sxv[j], syv[i])
                ret[i, j] = geo.box_meets(S, p, ext) if opt else geo.box_overlaps(S, p, ext)
            else:
                ret[i, j] = geo.box_overlaps(S, (sxe[j][0], sye[i][0], sxe[j][1], sye[i][1]), ext)
    return ret


needed.swaps = geo.SWAPS


_SESSION, _JITTER = [None], [None]
MARGIN = SPATIALDECOMP_BUFFER


def _given(n):
    assert n == 4
    return _JITTER[0]


def _random_sample(n):
    """Any numbers in [0, 1): the decomposition moves its edges by random amounts."""
    v = _SESSION[0].reals('jitter', n, 0, 1)
    for e in v:
        _SESSION[0].assume(e < 1)
    return v


def decomposition(S, dshape, splits, bounded=False, up=True, pick=None):
    """A spatial decomposition puts every cell in the part holding its coordinates."""
    S.lazy()
    dst, dyv, dye, dxv, dxe = grid(S, 'd', *dshape, bounded, up)
    src = Grid(fixed('sx', 3), fixed('sy', 3), parent=Field())
    _SESSION[0] = S
    inside = []
    jit = _random_sample(4)
    for v, cells, k, parts in ((dyv, dye, 0, splits[0]), (dxv, dxe, 2, splits[1])):
        ext = [e[0] for e in cells] + [e[1] for e in cells] if bounded else v
        lo, hi = S.min(*ext) - MARGIN + jit[k] * MARGIN, S.max(*ext) + MARGIN + jit[k + 1] * MARGIN
        edge = [lo + (hi - lo) * q / parts for q in range(1, parts)]
        for e in edge:
            for a in v:
                S.assume(S.max(a - e, e - a) > 2. ** -10)
        low, high = [-1e6] + edge, edge + [1e6]
        inside.append([[S.and_(low[q] < a, a < high[q]) for a in v] for q in range(parts)])
    _JITTER[0] = jit
    gc = GridChunker(src, dst, nchunks_dst=splits, paths={'wd': '/'}, use_spatial_decomp=True)
    at = {}
    n = 0
    try:
        for sub, slc in gc.iter_dst_grid_subsets(yield_slice=True, **({} if pick is None else {'yield_idx': pick})):
            n += 1
            ys, xs = slc['dy'], slc['dx']
            S.check(tuple(sub.shape) == (ys.stop - ys.start, xs.stop - xs.start), 'shape of the part')
            m = sub.get_mask()
            for r, i in enumerate(range(ys.start, ys.stop)):
                for c, j in enumerate(range(xs.start, xs.stop)):
                    S.check(S.and_(S.eq(sub.y.get_value()[r], dyv[i]), S.eq(sub.x.get_value()[c], dxv[j])), 'coordinates of the part')
                    if m is None or not m[r, c]:
                        at.setdefault((i, j), []).append(n)
    except EmptySubsetError:
        parts = [pick] if pick is not None else range(splits[0] * splits[1])
        held = []
        for k in parts:
            r, c = divmod(k, splits[1])
            held.append(S.and_(S.any_([inside[0][r][i] for i in range(dshape[0])]), S.any_([inside[1][c][j] for j in range(dshape[1])])))
        S.check(S.not_(S.all_(held)), 'reported empty')
        return
    if pick is not None:
        S.check(n == 1, 'one part')
        return
    S.check(n == splits[0] * splits[1], 'number of parts')
    for i in range(dshape[0]):
        for j in range(dshape[1]):
            S.check(len(at.get((i, j), ())) == 1, 'every cell in one part')


decomposition.swaps = geo.SWAPS
decomposition.patches = {('numpy.random', 'random_sample'): _given}


def tasks(tier):
    deep = tier == 'thorough'
    out = [(pieces, {'most': 8 if not deep else 14, 'chunks': 4 if not deep else 7})]
    for ny, nx, sp in ((4, 4, (2, 2)), (5, 2, (2, 1)), (5, 5, (2, 3)), (3, 3, (3, 3)), (1, 4, (1, 2)), (3, 2, (4, 1)), (2, 6, (1, 3)), (7, 3, (3, 2))):
        out.append((cover, {'ny': ny, 'nx': nx, 'splits': sp}))
    for opt in (True, False):
        out.append((needed, {'dshape': (4, 2), 'sshape': (2, 1), 'splits': (2, 1), 'optimized': opt}))
        out.append((needed, {'dshape': (2, 4), 'sshape': (1, 2), 'splits': (1, 2), 'optimized': opt, 'up': False}))
        out.append((needed, {'dshape': (2, 2), 'sshape': (3, 1), 'splits': (1, 1), 'optimized': opt, 'buffer': 'resolution', 'dbound': False}))
        out.append((needed, {'dshape': (4, 1), 'sshape': (2, 1), 'splits': (2, 1), 'optimized': opt, 'sbound': False, 'mask': 2}))
        out.append((needed, {'dshape': (2, 2), 'sshape': (2, 2), 'splits': (1, 1), 'optimized': opt, 'buffer': 'default', 'even': True}))
    out.append((needed, {'dshape': (4, 2), 'sshape': (1, 2), 'splits': (2, 1), 'optimized': 'auto', 'up': False}))
    for sp, up in (((2, 1), True), ((1, 2), False), ((2, 2), True)):
        out.append((decomposition, {'dshape': (2, 2), 'splits': sp, 'up': up}))
    out.append((decomposition, {'dshape': (3, 2), 'splits': (2, 1), 'bounded': True}))
    out.append((decomposition, {'dshape': (2, 2), 'splits': (2, 1), 'pick': 1}))
    if deep:
        for opt in (True, False):
            out.append((needed, {'dshape': (4, 2), 'sshape': (3, 2), 'splits': (2, 1), 'optimized': opt}))
            out.append((needed, {'dshape': (4, 4), 'sshape': (2, 2), 'splits': (2, 2), 'optimized': opt, 'up': False}))
            out.append((needed, {'dshape': (4, 2), 'sshape': (2, 2), 'splits': (2, 1), 'optimized': opt, 'sbound': False, 'mask': 2}))
        out.append((decomposition, {'dshape': (4, 3), 'splits': (2, 2)}))
    return out
