"""C02: slicing distributed objects equals slicing the undistributed object."""
import os

import numpy as np
from ocgis import Dimension, Field, Grid, RequestDataset, Variable, vm
from ocgis.variable.dimension import create_distributed_dimension
from ocgis.vmachine.mpi import OcgDist, get_global_to_local_slice, redistribute_by_src_idx, variable_gather, variable_scatter
from symex import fakenc, ranks

from .common import clip_bounds, nested, sym_slice

FUNCTIONS = ['ocgis.vmachine.mpi.get_global_to_local_slice', 'ocgis.variable.dimension.Dimension.get_distributed_slice', 'create_distributed_dimension',
             'ocgis.variable.base.Variable.get_distributed_slice', 'Variable.create_ugid_global', 'ocgis.vmachine.mpi.variable_scatter', 'variable_gather',
             'get_nonempty_ranks', 'OcgVM.scoped', 'OcgVM.create_subcomm', 'redistribute_by_src_idx']
BIG = 10 ** 6
BOUNDS = 'dimensions: 1..3 workers (thorough 4) of any local size up to 10**6 (empty ones included), any contiguous slice (open-ended, negative and past the ' \
         'end), chains of two; variables: 2 or 3 workers with up to 3 elements each, any values'
ASSUMPTIONS = ['workers are simulated in one process with a communicator that copies messages and completes operations when all ' \
               'members called them']
OUTSIDE = 'slices with steps and index arrays of distributed dimensions, the transport of messages itself'


def to_local(S):
    start, stop, lo, hi = (S.int(k, 0, BIG) for k in ('start', 'stop', 'lo', 'hi'))
    S.assume(S.and_(start <= stop, lo <= hi))
    r = get_global_to_local_slice((start, stop), (lo, hi))
    a, b = S.max(start, lo), S.min(stop, hi)
    if r is None:
        S.check(a >= b, 'None only without overlap')
    else:
        S.check(S.implies(a < b, S.and_(r[0] == a - lo, r[1] == b - lo)), 'overlap')
        S.check(S.implies(a >= b, r[0] >= r[1]), 'nothing selected without overlap')
        S.check(S.and_(r[0] >= 0, r[1] <= hi - lo), 'inside of the worker')


def sizes_of(S, P, empty, hi=BIG):
    sizes, starts, at = [], [], 0
    for r in range(P):
        n = 0 if r in empty else S.int('size%d' % r, 1, hi)
        sizes.append(n)
        starts.append(at)
        at = at + n
    return sizes, starts, at


def dimension(S, P, chain=1, src='bounds', empty=(), dist=True, first=None):
    """Any slice of a dimension distributed in any way."""
    sizes, starts, total = sizes_of(S, P, empty)
    off = S.int('offset', 0, BIG)
    slices = [sym_slice(S, 's%d' % c, -BIG, BIG) for c in range(chain)]
    if first is not None:
        S.assume((slices[0][0] is None, slices[0][1] is None) == first)

    def f(rank):
        kw = {}
        if src == 'bounds' and rank not in empty:
            kw['src_idx'] = (off + starts[rank], off + starts[rank] + sizes[rank])
        if dist:
            dim = create_distributed_dimension(sizes[rank], name='d', **kw)
        else:
            dim = Dimension('d', size=total, src_idx=(off, off + total) if src == 'bounds' else None)
        made = (dim.bounds_local, dim.bounds_global, dim.size_current, dim.is_empty)
        out = []
        for c, s in enumerate(slices):
            with vm.scoped_by_emptyable('slice%d' % c, dim):
                new = None if vm.is_null else dim.get_distributed_slice(slice(*s))
            out.append(new)
            dim = dim if new is None else new
        return made, out

    res = ranks.values(ranks.run(P, f))
    lo = list(starts)
    hi = [s + n for s, n in zip(starts, sizes)]
    if dist:
        for r, (made, _) in enumerate(res):
            S.check(made[2] == sizes[r], 'local size')
            S.check(S.iff(made[3], r in empty), 'empty workers')
            S.check(S.and_(made[0][0] == lo[r], made[0][1] == hi[r], made[1][0] == 0, made[1][1] == total), 'bounds')
    base = [off + s for s in starts]
    for c, s in enumerate(slices):
        a, b = clip_bounds(S, s[0], s[1], total)
        for r in range(P):
            out = res[r][1]
            if not dist:
                new = out[c]
                S.check(S.and_(len_(new) == b - a), 'undistributed length')
                continue
            x, y = S.max(a, lo[r]), S.min(b, hi[r])
            if out[c] is None:
                S.check(S.or_(x >= y, lo[r] >= hi[r]), 'nothing to slice')
                continue
            new = out[c]
            if new.is_empty:
                S.check(x >= y, 'empty only when nothing is selected')
                S.check(new.size_current == 0, 'no elements in an empty dimension')
                continue
            S.check(S.implies(x < y, S.and_(len_(new) == y - x, new.bounds_local[0] == x - a, new.bounds_local[1] == y - a,
                                            new.bounds_global[0] == 0, new.bounds_global[1] == b - a)), 'bounds after slicing')
            S.check(S.implies(x >= y, len_(new) == 0), 'no elements of other workers')
            if src == 'bounds':
                S.check(S.implies(x < y, S.and_(new._src_idx[0] == base[r] + x - lo[r], new._src_idx[1] == base[r] + y - lo[r])), 'source indices')
        for r in range(P):
            x, y = S.max(a, lo[r]), S.max(S.min(b, hi[r]), S.max(a, lo[r]))
            base[r], lo[r], hi[r] = base[r] + x - lo[r], x - a, y - a
        total = b - a


def len_(d):
    return d.size_current


def conc_slice(S, name, n, kind='any'):
    start = None if S.cbool(name + '.open_start') else S.cint(name + '.start', -n - 1, n + 1)
    stop = None if S.cbool(name + '.open_stop') else S.cint(name + '.stop', -n - 1, n + 1)
    return slice(start, stop)


def make_field(S, rank, sizes, data, x, xb, mask, nt):
    """The part of one worker."""
    lo = sum(sizes[:rank])
    hi = lo + sizes[rank]
    dx = create_distributed_dimension(sizes[rank], name='x', src_idx=(lo, hi) if hi > lo else None)
    dt = Dimension('t', nt)
    empty = hi == lo
    f = Field()

    def var(name, value, dims, m=None):
        if empty:
            v = Variable(name=name, dimensions=dims, is_empty=True)
            if v.parent is not f:
                f.add_variable(v)
            return v
        v = Variable(name=name, value=value, dimensions=dims, mask=m, parent=f)
        return v

    b = None
    xv = var('xc', None if empty else x[lo:hi], [dx])
    if xb is not None and not empty:
        xv.set_bounds(Variable(name='xb', value=xb[lo:hi], dimensions=[dx, 'b']))
    var('data', None if empty else data[:, lo:hi], [dt, dx], None if mask is None or empty else mask[:, lo:hi])
    var('tv', None if empty else S.array([10. * i for i in range(nt)], 'f'), [dt])
    return f


def variable(S, sizes, nt=1, masked=False, bounds=False, order='tx'):
    """Slicing a variable of a field, everything else follows."""
    P, total = len(sizes), sum(sizes)
    data = S.reals('data', (nt, total))
    x = S.reals('x', total)
    xb = S.reals('xb', (total, 2)) if bounds else None
    mask = np.array(S.mask('m', (nt, total))).reshape(nt, total) if masked else None
    ref = nested(data), nested(x), nested(xb)
    ts = conc_slice(S, 'ts', nt) if nt > 1 else slice(None)
    xs = conc_slice(S, 'xs', total)
    tsel, xsel = list(range(nt))[ts], list(range(total))[xs]

    def f(rank):
        field = make_field(S, rank, sizes, data, x, xb, mask, nt)
        v = field['data']
        with vm.scoped_by_emptyable('slice', v):
            return field, None if vm.is_null else v.get_distributed_slice([ts, xs])

    for r, (field, new) in enumerate(ranks.values(ranks.run(P, f))):
        lo = sum(sizes[:r])
        sel = [i for i in xsel if lo <= i < lo + sizes[r]]
        if new is None:
            S.check(sizes[r] == 0, 'live worker')
            continue
        if not sel or not tsel:
            S.check(new.is_empty or 0 in new.shape, 'empty outside of the slice')
            continue
        S.check(not new.is_empty and new.shape == (len(tsel), len(sel)), 'shape')
        if new.shape != (len(tsel), len(sel)):
            continue
        want = S.array([[ref[0][i][j] for j in sel] for i in tsel], 'f')
        m = new.get_mask()
        if mask is None:
            S.check(S.arr_eq(new.get_value(), want), 'values')
        else:
            m = np.zeros(new.shape, dtype=bool) if m is None else m
            for (i, ti), (j, xj) in [((i, ti), (j, xj)) for i, ti in enumerate(tsel) for j, xj in enumerate(sel)]:
                S.check(bool(m[i, j]) == bool(mask[ti, xj]), 'mask')
                S.check(m[i, j] or S.eq(new.get_value()[i, j], ref[0][ti][xj]), 'values')
        d = new.dimensions[1]
        S.check(tuple(d.bounds_local) == (xsel.index(sel[0]), xsel.index(sel[-1]) + 1), 'local bounds')
        S.check(tuple(d.bounds_global) == (0, len(xsel)), 'global bounds')
        si = d._src_idx
        S.check([int(i) for i in (range(*si) if isinstance(si, tuple) else si)] == sel, 'source indices')
        p = new.parent
        S.check(S.arr_eq(p['xc'].get_value(), S.array([ref[1][j] for j in sel], 'f')), 'coordinates')
        S.check(p['xc'].dimensions[0].bounds_local == d.bounds_local, 'dimension of the coordinates')
        if bounds:
            S.check(S.arr_eq(p['xc'].bounds.get_value(), S.array([ref[2][j] for j in sel], 'f')), 'bounds of the coordinates')
        S.check([float(i) for i in np.atleast_1d(p['tv'].get_value())] == [10. * i for i in tsel], 'other variables')
        S.check(field['data'].shape == (nt, sizes[r]) and S.arr_eq(field['xc'].get_value(), S.array(ref[1][lo:lo + sizes[r]], 'f')), 'source unchanged')


def ugid(S, sizes):
    """Identifiers are consecutive over the workers."""
    P, total = len(sizes), sum(sizes)
    start = S.int('start', -5, 10 ** 6)
    x = S.reals('x', total)

    def f(rank):
        field = make_field(S, rank, sizes, x.reshape(1, total), x, None, None, 1)
        with vm.scoped_by_emptyable('ugid', field['xc']):
            return None if vm.is_null else field['xc'].create_ugid_global('ID', start=start)

    at = 0
    for r, u in enumerate(ranks.values(ranks.run(P, f))):
        S.check((u is None) == (sizes[r] == 0), 'live workers')
        if u is not None:
            S.check(S.all_([S.eq(v, start + at + i) for i, v in enumerate(u.get_value())] + [u.shape == (sizes[r],)]), 'consecutive identifiers')
            at += sizes[r]


def scatter(S, P, nx, nt=1, masked=False, bounds=False, root=0, min_elements=2, gather=True):
    """Scatter a field and gather it again."""
    data = S.reals('data', (nt, nx))
    x = S.reals('x', nx)
    xb = S.reals('xb', (nx, 2)) if bounds else None
    mask = np.array(S.mask('m', (nt, nx))).reshape(nt, nx) if masked else None
    ref = nested(data), nested(x), nested(xb)
    off = S.int('offset', 0, 100)

    def f(rank):
        dist = OcgDist()
        dist.create_dimension('x', nx, dist=True, src_idx=(off, off + nx))
        dist.update_dimension_bounds(min_elements=min_elements)
        v = None
        if rank == root:
            dx, dt = Dimension('x', nx, src_idx=(off, off + nx)), Dimension('t', nt)
            field = Field()
            xc = Variable(name='xc', value=x, dimensions=[dx], parent=field)
            if bounds:
                xc.set_bounds(Variable(name='xb', value=xb, dimensions=[dx, 'b']))
            v = Variable(name='data', value=data, dimensions=[dt, dx], mask=mask, parent=field)
        new = variable_scatter(v, dist, root=root)
        dist_flag = new.is_empty or new.dimensions[1].dist
        back = None
        if gather:
            with vm.scoped_by_emptyable('gather', new):
                if not vm.is_null:
                    # Ranks are counted on live workers.
                    back = variable_gather(new, root=min(root, vm.size - 1))
        return new, back, dist_flag

    res = ranks.values(ranks.run(P, f))
    at = 0

    def same(v, sel):
        S.check(v.shape == (nt, len(sel)), 'shape')
        m = v.get_mask()
        for i in range(nt):
            for j, k in enumerate(sel):
                if mask is not None:
                    S.check(bool(m is not None and m[i, j]) == bool(mask[i, k]), 'mask')
                S.check((mask is not None and mask[i, k]) or S.eq(v.get_value()[i, j], ref[0][i][k]), 'values')

    for r, (new, back, dist_flag) in enumerate(res):
        if new.is_empty:
            S.check(all(n.is_empty for n, _, _ in res[r:]), 'empty workers come last')
            continue
        n = new.shape[1]
        sel = list(range(at, at + n))
        same(new, sel)
        d = new.dimensions[1]
        S.check(tuple(d.bounds_local) == (at, at + n) and tuple(d.bounds_global) == (0, nx) and dist_flag, 'bounds')
        S.check(S.and_(d._src_idx[0] == off + at, d._src_idx[1] == off + at + n), 'source indices')
        S.check(S.arr_eq(new.parent['xc'].get_value(), S.array([ref[1][j] for j in sel], 'f')), 'coordinates')
        if bounds:
            S.check(S.arr_eq(new.parent['xc'].bounds.get_value(), S.array([ref[2][j] for j in sel], 'f')), 'bounds of the coordinates')
        at += n
    S.check(at == nx, 'everything is on some worker')
    if gather:
        live = [b for n, b, _ in res if not n.is_empty]
        at = min(root, len(live) - 1)
        back = live[at]
        S.check(back is not None and all(b is None for k, b in enumerate(live) if k != at), 'gathered on one worker')
        same(back, list(range(nx)))
        d = back.dimensions[1]
        S.check(not d.dist and S.and_(d.size_current == nx, d._src_idx[0] == off, d._src_idx[1] == off + nx), 'gathered dimension')


def grid(S, sizes, kind, ny=2):
    """Slicing a distributed grid: coordinates, masks and other variables follow."""
    P, total = len(sizes), sum(sizes)
    data = S.reals('data', (ny, total))
    x = S.reals('x', total if kind == 'vector' else (ny, total))
    y = S.reals('y', ny if kind == 'vector' else (ny, total))
    ref = nested(data), nested(x), nested(y)
    ys, xs = S.choice('ys', [slice(None), slice(1, None), slice(-2, -1)]), conc_slice(S, 'xs', total)
    ysel, xsel = list(range(ny))[ys], list(range(total))[xs]
    as_dict = ys == slice(1, None)

    def f(rank):
        lo = sum(sizes[:rank])
        hi = lo + sizes[rank]
        dx, dy = create_distributed_dimension(sizes[rank], name='x'), Dimension('y', ny)
        if lo == hi:
            xv = Variable(name='xc', dimensions=[dx] if kind == 'vector' else [dy, dx], is_empty=True)
            yv = Variable(name='yc', dimensions=[dy] if kind == 'vector' else [dy, dx], is_empty=True)
        elif kind == 'vector':
            xv, yv = Variable(name='xc', value=x[lo:hi], dimensions=[dx]), Variable(name='yc', value=y.copy(), dimensions=[dy])
        else:
            xv, yv = Variable(name='xc', value=x[:, lo:hi], dimensions=[dy, dx]), Variable(name='yc', value=y[:, lo:hi], dimensions=[dy, dx])
        field = Field()
        g = Grid(xv, yv, parent=field)
        if lo != hi:
            field.add_variable(Variable(name='data', value=data[:, lo:hi], dimensions=[dy, dx]))
        with vm.scoped_by_emptyable('slice', g):
            return None if vm.is_null else g.get_distributed_slice({'y': ys, 'x': xs} if as_dict else [ys, xs])

    for r, new in enumerate(ranks.values(ranks.run(P, f))):
        lo = sum(sizes[:r])
        sel = [i for i in xsel if lo <= i < lo + sizes[r]]
        if new is None:
            S.check(sizes[r] == 0, 'live worker')
        elif not sel or not ysel:
            S.check(new.is_empty or 0 in new.shape, 'empty outside of the slice')
        else:
            S.check(not new.is_empty and new.shape == (len(ysel), len(sel)), 'shape')
            wx = [ref[1][j] for j in sel] if kind == 'vector' else [[ref[1][i][j] for j in sel] for i in ysel]
            wy = [ref[2][i] for i in ysel] if kind == 'vector' else [[ref[2][i][j] for j in sel] for i in ysel]
            S.check(S.arr_eq(new.x.get_value(), S.array(wx, 'f')), 'x coordinates')
            S.check(S.arr_eq(new.y.get_value(), S.array(wy, 'f')), 'y coordinates')
            S.check(S.arr_eq(new.parent['data'].get_value(), S.array([[ref[0][i][j] for j in sel] for i in ysel], 'f')), 'data')
            d = new.dimensions[1]
            S.check(tuple(d.bounds_local) == (xsel.index(sel[0]), xsel.index(sel[-1]) + 1), 'local bounds')
            S.check(tuple(d.bounds_global) == (0, len(xsel)), 'global bounds')
            S.check('__ocgis_dummy_var__' not in new.parent, 'no left-overs')


def scatter_parent(S, P, nx, nt):
    """Scatter a variable that has no distributed dimension: its siblings are scattered with it."""
    data, t = S.reals('data', (nt, nx)), S.reals('t', nt)
    ref = nested(data), nested(t)

    def f(rank):
        dist = OcgDist()
        dist.create_dimension('x', nx, dist=True)
        dist.update_dimension_bounds(min_elements=1)
        v = None
        if rank == 0:
            dx, dt = Dimension('x', nx), Dimension('t', nt)
            field = Field()
            Variable(name='data', value=data, dimensions=[dt, dx], parent=field)
            v = Variable(name='time', value=t, dimensions=[dt], parent=field)
        return variable_scatter(v, dist)

    at = 0
    for new in ranks.values(ranks.run(P, f)):
        if new.is_empty:
            continue
        n = len(new.parent.dimensions['x'])
        S.check(S.arr_eq(new.get_value(), S.array(ref[1], 'f')), 'a variable without the distributed dimension is whole')
        part = new.parent['data']
        S.check(part.shape == (nt, n), 'shape of the sibling')
        if part.shape == (nt, n):
            S.check(S.arr_eq(part.get_value(), S.array([row[at:at + n] for row in ref[0]], 'f')), 'the sibling is scattered')
        at += n
    S.check(at == nx, 'everything is on some worker')


def source(S, P, nx, ny, redistribute=None, chain=1, loaded=False):
    """A file opened by several workers: every worker reads its part of the slice."""
    with fakenc.scratch() as d:
        path = os.path.join(d, 'a.nc')
        data, x, y = S.reals('data', (ny, nx)), S.reals('x', nx), S.reals('y', ny)
        ref = nested(data), nested(x), nested(y)
        dx, dy = Dimension('x', nx), Dimension('y', ny)
        field = Field(name='f')
        lon, lat = ('x', 'y') if loaded else ('lon', 'lat')
        field.set_grid(Grid(Variable(lon, value=x, dimensions=dx), Variable(lat, value=y, dimensions=dy)))
        field.add_variable(Variable('tas', value=data, dimensions=[dy, dx]), is_data=True)
        field.write(path)
        dist = 'x' if nx >= ny else 'y'
        slices, sel = [], {'y': list(range(ny)), 'x': list(range(nx))}
        for c in range(chain):
            s = {k: conc_slice(S, 's%d.%s' % (c, k), len(sel[k])) if k == dist else slice(None) for k in ('y', 'x')}
            slices.append([s['y'], s['x']])
            sel = {k: sel[k][s[k]] for k in s}
            S.assume(len(sel[dist]) > 0)

        def f(rank):
            v = RequestDataset(path).get()['tas']
            for k, slc in enumerate(slices):
                with vm.scoped_by_emptyable('slice%d' % k, v):
                    if not vm.is_null:
                        v = v.get_distributed_slice(slc)
            if loaded and not v.is_empty:
                # Everything is in memory already.
                for name in ('tas', lon, lat):
                    v.parent[name].get_value()
            if redistribute == 'always':
                redistribute_by_src_idx(v, dist, None if v.is_empty else v.parent.dimensions[dist])
            p = v.parent
            if v.is_empty:
                return None
            axis = [d.name for d in v.dimensions].index(dist)
            return v.get_value(), p[lon].get_value(), p[lat].get_value(), v.dimensions[axis].bounds_local, v.dimensions[axis].bounds_global, \
                [d.name for d in v.dimensions]

        at = 0
        counts = []
        for r, new in enumerate(ranks.values(ranks.run(P, f))):
            if new is None:
                counts.append(0)
                continue
            value, lons, lats, bl, bg, names = new
            n = value.shape[names.index(dist)]
            counts.append(n)
            part = {k: sel[k][at:at + n] if k == dist else sel[k] for k in sel}
            S.check(names == ['y', 'x'] and value.shape == (len(part['y']), len(part['x'])), 'shape')
            if value.shape == (len(part['y']), len(part['x'])):
                S.check(S.arr_eq(value, S.array([[ref[0][i][j] for j in part['x']] for i in part['y']], 'f')), 'values')
                S.check(S.arr_eq(lons, S.array([ref[1][j] for j in part['x']], 'f')), 'x coordinates')
                S.check(S.arr_eq(lats, S.array([ref[2][i] for i in part['y']], 'f')), 'y coordinates')
            S.check(tuple(bl) == (at, at + n), 'local bounds')
            S.check(tuple(bg) == (0, len(sel[dist])), 'global bounds')
            at += n
        S.check(at == len(sel[dist]), 'everything is on some worker')
        if redistribute:
            live = [c for c in counts if c]
            S.check(max(live) - min(live) <= 1, 'balanced after redistribution')


source.patches = fakenc.patches()


def tasks(tier):
    out = []
    deep = tier == 'thorough'
    out.append((to_local, {}))
    for P in (1, 2, 3) + ((4,) if deep else ()):
        for src in ('bounds', None):
            out.append((dimension, {'P': P, 'src': src}))
            out.append((dimension, {'P': P, 'src': src, 'dist': False}))
    for first in ((False, False), (False, True), (True, False), (True, True)):
        out.append((dimension, {'P': 2, 'chain': 2, 'first': first}))
    for e in ((0,), (1,), (2,), (0, 2)):
        out.append((dimension, {'P': 3, 'empty': e}))
    for sizes in ((2, 2), (3, 1), (1, 1, 2), (0, 2), (2, 0, 2)):
        out.append((variable, {'sizes': sizes}))
        out.append((variable, {'sizes': sizes, 'bounds': True}))
        out.append((ugid, {'sizes': sizes}))
    out.append((variable, {'sizes': (2, 1), 'nt': 2}))
    out.append((variable, {'sizes': (2, 1), 'masked': True}))
    for sizes in ((2, 1), (1, 0, 2)):
        for kind in ('vector', 'matrix'):
            out.append((grid, {'sizes': sizes, 'kind': kind}))
    for P in (2, 3):
        for r in (None, 'always'):
            out.append((source, {'P': P, 'nx': 4, 'ny': 2, 'redistribute': r}))
            out.append((source, {'P': P, 'nx': 2, 'ny': 5, 'redistribute': r}))
    out.append((source, {'P': 2, 'nx': 3, 'ny': 2, 'redistribute': 'always', 'chain': 2}))
    for nx, ny in ((4, 2), (2, 3)):
        out.append((source, {'P': 2, 'nx': nx, 'ny': ny, 'redistribute': 'always', 'loaded': True}))
    if deep:
        out.append((source, {'P': 3, 'nx': 5, 'ny': 2, 'redistribute': 'always', 'chain': 2}))
        out.append((source, {'P': 4, 'nx': 6, 'ny': 2, 'redistribute': 'always'}))
        out.append((variable, {'sizes': (2, 2, 3), 'bounds': True}))
        out.append((variable, {'sizes': (1, 2, 0, 2), 'nt': 2}))
        out.append((variable, {'sizes': (2, 2), 'masked': True, 'nt': 2}))
        out.append((grid, {'sizes': (2, 1, 0, 2), 'kind': 'matrix'}))
        out.append((scatter, {'P': 4, 'nx': 7, 'nt': 2, 'bounds': True}))
        out.append((dimension, {'P': 3, 'chain': 2, 'first': (True, False)}))
    for P in (2, 3):
        out.append((scatter_parent, {'P': P, 'nx': 4, 'nt': 2}))
    for nx in (2, 5):
        out.append((scatter, {'P': 3, 'nx': nx, 'root': 1, 'bounds': True}))
        out.append((scatter, {'P': 2, 'nx': nx, 'root': 1, 'min_elements': 1}))
    for P in (1, 2, 3):
        for nx in (2, 3, 5):
            out.append((scatter, {'P': P, 'nx': nx}))
        out.append((scatter, {'P': P, 'nx': 3, 'bounds': True, 'min_elements': 1}))
        out.append((scatter, {'P': P, 'nx': 4, 'masked': True}))
        out.append((scatter, {'P': P, 'nx': 4, 'nt': 2}))
    return out
