"""C14: chunk files, the index file, merging of weight files and insertion of chunk results."""
import os

import numpy as np
from ocgis import Dimension, Field, RequestDataset, Variable
from ocgis.spatial.grid import Grid
from ocgis.spatial.grid_chunker import GridChunker
from symex import fakenc
from symex.arrays import SymArray
from symex.engine import active

from . import geo

FUNCTIONS = ['ocgis.spatial.grid_chunker.GridChunker.{write_chunks,create_merged_weight_file,insert_weighted,_gc_remap_weight_variable_,iter_src_grid_subsets,'
             'create_full_path_from_template}', 'ocgis.spatial.grid.Grid.{_gc_create_global_indices_,_gc_create_index_bounds_}', 'ocgis.variable.base.Variable.'
             'join_string_value', 'ocgis.driver.nc.{DriverNetcdf,DriverNetcdfCF}: writing and reading of the chunk, index and weight files']
BOUNDS = 'destination grids up to 5x4 in up to 4 chunks, source grids up to 4x4, any buffer in [0, 5] (so any window of source cells), up to 3 weights per chunk with any ' \
         'rows, columns and factors, any missing weight files, masters with up to 2 time steps and any values'
ASSUMPTIONS = ['symbolic runs use an in-memory model of the netCDF4 library (symex/fakenc.py); every replayed run uses the real library on real files',
               'shapely decides intersects, touches, buffer and envelope of boxes exactly (rounding aside)']
OUTSIDE = 'generation of the weights by ESMF, auxiliary variables of weight files, unstructured grids, several workers'


def grid(tag, ny, nx, at=(0., 0.), step=1., bounds=False):
    y = Variable(tag + 'y', value=[at[0] + k * step for k in range(ny)], dimensions=[Dimension(tag + 'y', ny)], attrs={'axis': 'Y'})
    x = Variable(tag + 'x', value=[at[1] + k * step for k in range(nx)], dimensions=[Dimension(tag + 'x', nx)], attrs={'axis': 'X'})
    g = Grid(y=y, x=x, parent=Field())
    if bounds:
        g.set_extrapolated_bounds(tag + 'xb', tag + 'yb', 'b')
    return g


def dataset(path, mode):
    """A data set of the modelled library in symbolic runs and of the real one otherwise."""
    import ocgis.driver.nc as m
    return m.nc.Dataset(path, mode)


def merged(S, dshape, sshape, splits, most=2, buffer=None, missing=False, sstep=1., sat=(0., 0.), fmt=None):
    """A merged weight file holds the weights of every chunk file for the same cells of the whole grids."""
    S.lazy('gather')
    dst, src = grid('d', *dshape), grid('s', *sshape, at=sat, step=sstep)
    for g in (dst, src):
        g._gc_create_global_indices_ = _symbolic_indices
    b = S.real('buffer', 0, 5) if buffer is None else buffer
    with fakenc.scratch() as d:
        gc = GridChunker(src, dst, nchunks_dst=splits, paths={'wd': d}, buffer_value=b, **({} if fmt is None else {'nc_format': fmt}))
        gc.write_chunks()
        want = []
        for k in range(1, len(list(gc.iter_dst_grid_slices())) + 1):
            if missing and S.cbool('missing%d' % k):
                continue
            f, g = [RequestDataset(os.path.join(d, 'split_%s_%d.nc' % (n, k))).get() for n in ('dst', 'src')]
            dyv, dxv = f['dy'].get_value(), f['dx'].get_value()
            syv, sxv = g['sy'].get_value(), g['sx'].get_value()
            n = S.cint('n%d' % k, 0, most) if missing else most
            row = S.ints('row%d' % k, n, 1, len(dyv) * len(dxv))
            col = S.ints('col%d' % k, n, 1, len(syv) * len(sxv))
            fac = S.reals('fac%d' % k, n, 0, 1)
            ds = dataset(os.path.join(d, 'esmf_weights_%d.nc' % k), 'w')
            ds.createDimension('n_s', n)
            for name, v, kind in (('row', row, 'i'), ('col', col, 'i'), ('S', fac, 'f')):
                ds.createVariable(name, 'i4' if kind == 'i' else 'f8', ('n_s',))
                if n:
                    ds.variables[name][:] = S.array([v[i] for i in range(n)], kind)
            ds.close()
            want += [(row[i], col[i], fac[i], dyv, dxv, syv, sxv) for i in range(n)]
        if not want:
            return S.check(True, 'no weights')
        path = os.path.join(d, 'merged.nc')
        gc.create_merged_weight_file(path)
        ds = dataset(path, 'r')
        S.check(len(ds.dimensions['n_s']) == len(want), 'number of weights')
        row, col, fac = [ds.variables[n][:] for n in ('row', 'col', 'S')]
        ds.close()
        gy, gx = dst.y.get_value(), dst.x.get_value()
        hy, hx = src.y.get_value(), src.x.get_value()
        for i, (r, c, s, dyv, dxv, syv, sxv) in enumerate(want):
            S.check(S.eq(fac[i], s), 'factor')
            same_cell(S, row[i], gy, gx, r, dyv, dxv, 'destination cell')
            same_cell(S, col[i], hy, hx, c, syv, sxv, 'source cell')


def same_cell(S, whole, gy, gx, part, y, x, label):
    """Cell number ``whole`` of the grid is where cell number ``part`` of the chunk is."""
    out = []
    for q in range(len(y) * len(x)):
        i, j = divmod(q, len(x))
        at = [a * len(gx) + b + 1 for a in range(len(gy)) for b in range(len(gx)) if float(gy[a]) == float(y[i]) and float(gx[b]) == float(x[j])]
        S.check(len(at) == 1, 'cells of the chunk file')
        out.append(S.and_(S.eq(part, q + 1), S.eq(whole, at[0])))
    S.check(S.any_(out), label)


def chunked(S, dshape, sshape, splits, nt, bounds=True, variables=1, mask=0):
    """Chunk files partition the destination; inserting their data gives the whole again."""
    dst, src = grid('d', *dshape, bounds=bounds), grid('s', *sshape)
    ref = {}
    dims = list(dst.dimensions)
    if nt:
        t = Variable('time', value=[float(k) for k in range(nt)], dimensions=[Dimension('time', nt)], attrs={'axis': 'T', 'units': 'days since 2000-1-1'})
        dst.parent.add_variable(t)
        dst.parent.dimension_map.set_variable('time', t)
        dims = [t.dimensions[0]] + dims
    shape = tuple(x.size for x in dims)
    hidden = np.zeros(shape, dtype=bool)
    for k in range(variables):
        ref['data%d' % k] = S.reals('data%d' % k, shape)
        v = Variable('data%d' % k, value=S.array(ref['data%d' % k], 'f'), dimensions=dims)
        if mask and not k:
            hidden.flat[::5] = [S.cbool('m%d' % q) if q < mask else False for q in range(len(hidden.flat[::5]))]
            v.set_mask(hidden.copy())
        dst.parent.add_variable(v, is_data=True)
    with fakenc.scratch() as d:
        master = os.path.join(d, 'master.nc')
        blank = dst.parent.copy()
        for n in ref:
            v = Variable(n, value=np.zeros(shape), dimensions=dims)
            blank.add_variable(v, force=True, is_data=True)
        blank.write(master)
        gc = GridChunker(src, dst, nchunks_dst=splits, paths={'wd': d}, buffer_value=20.)
        gc.write_chunks()
        n = len(list(gc.iter_dst_grid_slices()))
        index = RequestDataset(os.path.join(d, '01-split_index.nc'), driver='netcdf').get()
        S.check([str(s) for s in index['destination_filename'].join_string_value()] == ['split_dst_%d.nc' % (k + 1) for k in range(n)], 'destination files')
        S.check([str(s) for s in index['source_filename'].join_string_value()] == ['split_src_%d.nc' % (k + 1) for k in range(n)], 'source files')
        seen = np.zeros(dshape, dtype=int)
        for k in range(n):
            f = RequestDataset(os.path.join(d, 'split_dst_%d.nc' % (k + 1))).get()
            (y0, y1), (x0, x1) = [[int(v) for v in index[m].get_value()[k]] for m in ('dst_y_bounds', 'dst_x_bounds')]
            seen[y0:y1, x0:x1] += 1
            S.check(f['dy'].get_value().tolist() == dst.y.get_value()[y0:y1].tolist(), 'rows of the chunk file')
            S.check(f['dx'].get_value().tolist() == dst.x.get_value()[x0:x1].tolist(), 'columns of the chunk file')
            for m in ref:
                cut = hidden[..., y0:y1, x0:x1] if m == 'data0' else None
                S.check(same(S, f[m], ref[m][..., y0:y1, x0:x1], cut), 'data of the chunk file')
        S.check((seen == 1).all(), 'every cell in one chunk file')
        # Variables without time are not discovered automatically.
        GridChunker.insert_weighted(os.path.join(d, '01-split_index.nc'), d, master, **({} if nt else {'data_variables': list(ref)}))
        out = RequestDataset(master).get()
        for m in ref:
            S.check(tuple(out[m].shape) == shape, 'shape of the whole')
            S.check(same(S, out[m], ref[m], hidden if m == 'data0' else None), 'data of the whole')


def same(S, var, ref, hidden):
    """Values where not masked, and the mask."""
    m = var.get_mask()
    if hidden is None or not hidden.any():
        return S.and_(m is None or not m.any(), S.arr_eq(var.get_value(), ref))
    if m is None or m.tolist() != hidden.tolist():
        return False
    v = var.get_value()
    return S.all_([S.eq(v[i], ref[i]) for i in np.ndindex(*hidden.shape) if not hidden[i]])


_global_indices = Grid._gc_create_global_indices_


def _symbolic_indices(global_shape, **kwargs):
    """The real function; in symbolic runs its result can be indexed by symbolic numbers."""
    r = _global_indices(global_shape, **kwargs)
    return r.astype(object).view(SymArray) if active() else r


merged.swaps = chunked.swaps = geo.SWAPS
merged.patches = chunked.patches = fakenc.patches()


def tasks(tier):
    deep = tier == 'thorough'
    out = [(merged, {'dshape': (4, 2), 'sshape': (5, 4), 'sat': (-1., -1.), 'splits': (2, 1)}),
           (merged, {'dshape': (2, 4), 'sshape': (3, 3), 'splits': (1, 2), 'missing': True}),
           (merged, {'dshape': (4, 4), 'sshape': (4, 4), 'splits': (2, 2), 'buffer': 0.5, 'most': 1}),
           (merged, {'dshape': (3, 2), 'sshape': (5, 4), 'splits': (3, 1), 'sstep': 0.5, 'most': 1}),
           (chunked, {'dshape': (4, 3), 'sshape': (3, 3), 'splits': (2, 1), 'nt': 0, 'mask': 2}),
           (chunked, {'dshape': (2, 4), 'sshape': (3, 3), 'splits': (1, 2), 'nt': 2, 'mask': 3}),
           (chunked, {'dshape': (4, 5), 'sshape': (3, 3), 'splits': (2, 2), 'nt': 2, 'variables': 2, 'bounds': False}),
           (chunked, {'dshape': (3, 5), 'sshape': (3, 3), 'splits': (2, 2), 'nt': 1})]
    if deep:
        out += [(merged, {'dshape': (5, 4), 'sshape': (6, 6), 'sat': (-1., -1.), 'splits': (2, 2)}),
                (merged, {'dshape': (4, 4), 'sshape': (4, 4), 'splits': (2, 2), 'missing': True, 'buffer': 1.5}),
                (merged, {'dshape': (4, 2), 'sshape': (5, 4), 'sat': (-1., -1.), 'splits': (2, 1), 'most': 3, 'fmt': 'NETCDF4'}),
                (chunked, {'dshape': (5, 6), 'sshape': (4, 4), 'splits': (2, 3), 'nt': 3, 'variables': 2, 'mask': 3})]
    return out
