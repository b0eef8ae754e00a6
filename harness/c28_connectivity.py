"""C28: element connectivity and the coordinates it refers to."""
import functools
import itertools
import os

import numpy as np

import ocgis.spatial.geomc as geomc
from ocgis import Dimension, Field, RequestDataset, Variable, vm
from ocgis.constants import DriverKey, MPITag
from ocgis.spatial.geomc import PointGC, PolygonGC, iter_multipart_coordinates, reduce_reindex_coordinate_index
from ocgis.spatial.grid import GridUnstruct
from ocgis.variable.dimension import create_distributed_dimension
from ocgis.variable.base import ObjectType
from harness import geo
from symex import fakenc, ranks

FUNCTIONS = ['ocgis.spatial.geomc.reduce_reindex_coordinate_index', 'ocgis.spatial.geomc.run_rr_root', 'ocgis.spatial.geomc.run_rr_nonroot',
             'ocgis.spatial.geomc.search_for_destinations', 'ocgis.util.helpers.create_unique_global_array', 'ocgis.util.helpers.arange_from_dimension',
             'ocgis.spatial.geomc.iter_multipart_coordinates', 'AbstractGeometryCoordinates.{get_geometry_iterable,reduce_global,__getitem__,get_distributed_slice,'
             'get_spatial_subset_operation}', 'PointGC', 'PolygonGC.get_element_node_connectivity_by_index', 'GridUnstruct', 'DriverNetcdfUGRID', 'DriverESMFUnstruct']
BOUNDS = ('1 to 3 elements (4 in the thorough tier) of 1 to 5 corners and up to 3 parts over up to 4 nodes; every connectivity of these sizes, real coordinates and data, '
          'start index 0 and 1; 1 to 3 workers (4 in the thorough tier) with 1 to 2 entries each; up to 3 messages that are looked for before they are there; '
          'selections by one or two boxes')
OUTSIDE = ['connectivity that is padded or masked', 'reducing the coordinates of elements of different sizes (refused by numpy)', 'loading coordinates late '
           '(env.USE_MEMORY_OPTIMIZATIONS), which fails for polygons', 'ragged connectivity in UGRID files (VLEN types are not modelled)',
           'rectangular connectivity written to ESMF files (refused)', 'subsetting meshes of ESMF files (refused)', 'lines']
ASSUMPTIONS = ['shapely keeps the coordinates it is given and decides intersects and touches for points and axis-aligned rectangles exactly',
               'workers run one at a time between calls of the communicator; messages between two workers keep their order']


def reindex(S, shape, top, start):
    """Renumbering one array."""
    S.int_storage()
    n = int(np.prod(shape))
    flat = np.array([S.cint('c{}'.format(i), start, start + top) for i in range(n)])
    c = flat.reshape(shape)
    before = c.copy()
    for value in (c, Variable('c', value=c, dimensions=['e', 'k'][:len(shape)])):
        new, u = reduce_reindex_coordinate_index(value, start_index=start)
        check_map(S, before, new, [u], start, '')
        S.check(bool(np.all(c == before)), 'the array given is unchanged')


def check_map(S, old, new, us, start, label, every=None):
    u = np.concatenate([np.asarray(x) for x in us])
    S.check(sorted(set(u.tolist())) == sorted(u.tolist()), label + 'every number once')
    S.check(set(u.tolist()) == set((old.flatten() if every is None else np.concatenate(every)).tolist()), label + 'the numbers referred to')
    S.check(new.shape == old.shape, label + 'shape')
    for i in np.ndindex(*old.shape):
        k = new[i] - start
        S.check(bool(0 <= k < len(u)) and bool(u[k] == old[i]), label + 'the same coordinate')


def parallel(S, sizes, top, start, late=0):
    """Renumbering an array that is distributed over workers."""
    S.int_storage()
    c = [np.array([S.cint('c{}_{}'.format(r, i), start, start + top) for i in range(n)]) for r, n in enumerate(sizes)]
    left = [late]

    def too_early(rank, source, tag):
        if left[0] == 0 or tag != MPITag.REDUCE_REINDEX_SEARCH:
            return False
        left[0] -= 1
        return S.cbool('early{}'.format(late - left[0]))

    def f(rank):
        return reduce_reindex_coordinate_index(c[rank].copy(), start_index=start)
    out = ranks.values(ranks.run(len(sizes), f, late=too_early if late else None))
    us = [u for _, u in out]
    for r in range(len(sizes)):
        check_map(S, c[r], out[r][0], us, start, 'workers: ', c)


class Shape(object):
    """Stands for a geometry; has the coordinates it was made from."""

    def __init__(self, *args):
        if len(args) == 1:
            self.coords = [tuple(c) for c in args[0]]
        else:
            self.coords = [tuple(args)]


class Parts(object):
    def __init__(self, parts):
        self.parts = list(parts)


def recorded(f):
    """Geometries are made by the stand-ins while the function runs."""
    @functools.wraps(f)
    def g(S, **kw):
        saved = [(c, n, c.__dict__[n]) for c, n in ((PolygonGC, '__shapely_geometry_class__'), (PolygonGC, '__shapely_multipart_class__'),
                                                    (PointGC, '__shapely_geometry_class__'))]
        try:
            for c, n, _ in saved:
                setattr(c, n, Parts if 'multi' in n else Shape)
            return f(S, **kw)
        finally:
            for c, n, v in saved:
                setattr(c, n, v)
    return g


BREAK = -8
# Connectivity of rectangular arrays: None is any node, 'b' separates parts.
LAYOUTS = {'tri': [[None] * 3] * 2,
           'parts': [[None, None, 'b', None], [None, 'b', None, None]],
           'some': [[None] * 4, [None, None, 'b', None]],
           'three': [[None, 'b', None, 'b', None], [None] * 5],
           'point': [[None]] * 2,
           'pair': [[None, None], [None, None]],
           'split': [[None, 'b', None], [None, None, None]],
           'uneven': [[None], [None, None, None]],
           'triple': [[None, None], [None, None], [None, None]],
           'single': [[None], [None], [None]]}


def connectivity(S, layout, nodes, start, concrete):
    """The connectivity and, per element, the parts as lists of index expressions."""
    rows, want = [], []
    for e, row in enumerate(LAYOUTS[layout]):
        r, parts = [], [[]]
        for k, kind in enumerate(row):
            if kind == 'b':
                r.append(BREAK)
                parts.append([])
            else:
                name = 'c{}_{}'.format(e, k)
                c = S.cint(name, 0, nodes - 1) if concrete else S.int(name, 0, nodes - 1)
                r.append(c + start)
                parts[-1].append(c)
        rows.append(r)
        want.append(parts)
    return rows, want


def pick(S, arr, c):
    out = arr[0]
    for i in range(1, len(arr)):
        out = S.ite(c == i, arr[i], out)
    return out


def make(S, cls, rows, start, x, y, z, explicit, memory=False):
    arr = np.array(rows) if not any(S.symbolic and not isinstance(c, (int, np.integer)) for r in rows for c in r) else S.array(np.array(rows, dtype=object), 'i')
    attrs = {}
    if any(isinstance(c, (int, np.integer)) and c == BREAK for r in rows for c in r):
        attrs['multi_break_value'] = BREAK
    if not explicit:
        attrs['start_index'] = start
    cv = Variable('conn', value=arr, dimensions=['element', 'corner'], attrs=attrs)
    kw = {}
    if z is not None:
        kw['z'] = Variable('z', value=z.copy(), dimensions='node')
    return cls(x=Variable('x', value=x.copy(), dimensions='node'), y=Variable('y', value=y.copy(), dimensions='node'), cindex=cv,
               start_index=start if explicit else 'auto', **kw)


def compare(S, gc, want, coords, mask, label, **kw):
    got = list(gc.get_geometry_iterable(**kw))
    S.check([i for i, _ in got] == list(range(len(want))), label + ': elements in order')
    for e, (_, g) in enumerate(got):
        if mask is not None and mask[e]:
            S.check(g is None, label + ': masked elements')
            continue
        S.check(g is not None, label + ': unmasked elements')
        parts = g.parts if isinstance(g, Parts) else [g]
        S.check(len(parts) == len(want[e]), label + ': parts')
        for p, w in zip(parts, want[e]):
            S.check(len(p.coords) == len(w), label + ': coordinates per part')
            for c, k in zip(p.coords, w):
                for v, arr in zip(c, coords):
                    S.check(S.eq(v, pick(S, arr, k)), label)


@recorded
def elements(S, layout, start, explicit=False, masked=False, z=False, how=None, concrete=False, nodes=4):
    """Elements, slices and reduced meshes have the coordinates the connectivity refers to."""
    S.int_storage()
    S.lazy('gather')
    cls = PointGC if layout in ('point', 'single') else PolygonGC
    x, y = S.reals('x', (nodes,), -180, 180), S.reals('y', (nodes,), -90, 90)
    zz = S.reals('z', (nodes,), 0, 100) if z else None
    rows, want = connectivity(S, layout, nodes, start, concrete)
    gc = make(S, cls, rows, start, x, y, zz, explicit)
    coords = [x, y] + ([zz] if z else [])
    n = len(want)
    mask = S.mask('m', (n,)) if masked else None
    if masked:
        gc.set_mask(mask)
    before = gc.cindex.get_value().copy()
    S.check(gc.start_index == start and gc.has_multi == any(len(w) > 1 for w in want), 'start index and break value')
    for k in range(2):
        compare(S, gc, want, coords, mask, 'elements')
    if masked:
        compare(S, gc, want, coords, None, 'elements without mask', use_mask=False)
    sel = list(range(n))
    if how is not None:
        keep = [S.cbool('k{}'.format(i)) for i in range(n)]
        if not any(keep):
            return S.check(True, 'nothing kept')
        sel = [i for i in range(n) if keep[i]]
        if how == 'bool':
            gc = gc[np.array(keep)]
        elif how == 'slice':
            if sel != list(range(sel[0], sel[-1] + 1)):
                return S.check(True, 'no slice')
            gc = gc[sel[0]:sel[-1] + 1]
        elif how == 'distributed':
            gc = gc.get_distributed_slice(np.array(keep))
        elif how == 'field':
            gc = Field(grid=GridUnstruct(geoms=[gc]))[{'element': sel}].grid.archetype
        want = [want[i] for i in sel]
        mask = None if mask is None else mask[sel]
        before = before[sel]
        compare(S, gc, want, coords, mask, 'part')
    if concrete:
        r = gc.reduce_global()
        used = sorted({c for w in want for p in w for c in p})
        S.check(r.x.shape == (len(used),) and r.node_dim.size == len(used), 'only coordinates referred to')
        S.check(r.start_index == start and r.cindex.attrs.get('multi_break_value') == gc.cindex.attrs.get('multi_break_value'), 'start index and break value of the reduced mesh')
        for k in range(2):
            compare(S, r, want, coords, mask, 'reduced')
        compare(S, gc, want, coords, mask, 'not reduced')
    S.check(S.all_([S.eq(a, b) for a, b in zip(gc.cindex.get_value().flat, before.flat)]), 'the connectivity is unchanged')


@recorded
def ragged(S, sizes, start, memory=False):
    """Elements of different sizes."""
    S.int_storage()
    S.lazy('gather')
    nodes = 4
    x, y = S.reals('x', (nodes,), -180, 180), S.reals('y', (nodes,), -90, 90)
    want = [[[S.int('c{}_{}'.format(e, k), 0, nodes - 1) for k in range(n)]] for e, n in enumerate(sizes)]
    arr = np.empty(len(sizes), dtype=object)
    for e in range(len(sizes)):
        arr[e] = S.array(np.array([c + start for c in want[e][0]], dtype=object), 'i')
    cv = Variable('conn', value=arr, dimensions=['element'], dtype=object, attrs={'start_index': start})
    gc = PolygonGC(x=Variable('x', value=x.copy(), dimensions='node'), y=Variable('y', value=y.copy(), dimensions='node'), cindex=cv)
    for k in range(2):
        compare(S, gc, want, [x, y], None, 'elements')
    compare(S, gc[1:], want[1:], [x, y], None, 'part')


@recorded
def files(S, layout, driver, start, nodes=3, part=False):
    """A mesh written to a file and read again."""
    S.int_storage()
    rows, want = connectivity(S, layout, nodes, start, True)
    x, y = S.reals('x', (nodes,), -180, 180), S.reals('y', (nodes,), -90, 90)
    v = S.reals('v', (len(rows),), -10, 10)
    if driver == DriverKey.NETCDF_ESMF_UNSTRUCT:
        # This format has one list of corners; it is written from elements of varying sizes.
        arr = np.empty(len(rows), dtype=object)
        for e, r in enumerate(rows):
            arr[e] = np.array(r, dtype=np.int32)
        attrs = {'start_index': start}
        if any(c == BREAK for r in rows for c in r):
            attrs['multi_break_value'] = BREAK
        gc = PolygonGC(x=Variable('x', value=x.copy(), dimensions='node'), y=Variable('y', value=y.copy(), dimensions='node'),
                       cindex=Variable('conn', value=arr, dimensions=['element'], dtype=ObjectType(np.int32), attrs=attrs))
    else:
        gc = make(S, PolygonGC, rows, start, x, y, None, False)
    f = Field(grid=GridUnstruct(geoms=[gc]))
    f.add_variable(Variable('d', value=v.copy(), dimensions=gc.element_dim), is_data=True)
    with fakenc.scratch() as path:
        path = os.path.join(path, 'm.nc')
        f.write(path, driver=driver)
        for k in range(2):
            g = RequestDataset(path, driver=driver).get()
            h = g.grid.archetype
            S.check(h.has_multi == gc.has_multi, 'break value in the file')
            compare(S, h, want, [x, y], None, 'file')
            compare(S, h, want, [x, y], None, 'file')
            S.check(S.all_([S.eq(a, b) for a, b in zip(g['d'].get_value().flat, v)]), 'data')
            if part:
                sub = h[1:]
                got = list(sub.get_geometry_iterable(with_index=False))
                ok = len(got) == len(want) - 1
                if ok:
                    for p, w in zip(got[0].parts if isinstance(got[0], Parts) else [got[0]], want[1]):
                        ok = S.and_(ok, len(p.coords) == len(w), *[S.eq(a[k], c[i]) for a, i in zip(p.coords, w) for k, c in enumerate((x, y))])
                S.check(ok, 'part of the elements of an ESMF mesh')


files.patches = fakenc.patches()


@recorded
def reduced_workers(S, layout, cut, start, nodes=3):
    """Reducing the coordinates of a mesh whose elements are distributed over two workers."""
    S.int_storage()
    rows, want = connectivity(S, layout, nodes, start, True)
    x, y = S.reals('x', (nodes,), -180, 180), S.reals('y', (nodes,), -90, 90)

    def f(rank):
        dim = create_distributed_dimension(cut if rank == 0 else len(rows) - cut, name='element')
        part = rows[:cut] if rank == 0 else rows[cut:]
        attrs = {'start_index': start}
        if any(c == BREAK for r in rows for c in r):
            attrs['multi_break_value'] = BREAK
        cv = Variable('conn', value=np.array(part), dimensions=[dim, 'corner'], attrs=attrs)
        gc = PolygonGC(x=Variable('x', value=x.copy(), dimensions='node'), y=Variable('y', value=y.copy(), dimensions='node'), cindex=cv)
        r = gc.reduce_global()
        d = r.node_dim
        return r.cindex.get_value(), r.x.get_value(), r.y.get_value(), d.size, d.bounds_local, r.start_index
    out = ranks.values(ranks.run(2, f))
    gx, gy = [np.concatenate([np.atleast_1d(o[k]) for o in out]) for k in (1, 2)]
    used = sorted({c for w in want for p in w for c in p})
    S.check(len(gx) == len(used) == len(gy), 'workers: only coordinates referred to')
    S.check(out[0][4] == (0, len(np.atleast_1d(out[0][1]))) and out[1][4] == (len(out[0][1]), len(used)), 'workers: the node dimension')
    new = np.concatenate([o[0] for o in out])
    for e, row in enumerate(new):
        parts = [list(p) for p in iter_multipart_coordinates(row, BREAK)]
        S.check(len(parts) == len(want[e]) and all(len(p) == len(w) for p, w in zip(parts, want[e])), 'workers: parts')
        for p, w in zip(parts, want[e]):
            for i, k in zip(p, w):
                S.check(bool(start <= i < start + len(gx)), 'workers: dense')
                S.check(S.eq(gx[i - start], x[k]) & S.eq(gy[i - start], y[k]), 'workers: the same coordinates')


def split(S, n):
    """Splitting at break values."""
    rows = [S.cint('c{}'.format(i), -1, 1) for i in range(n)]
    arr = np.array(rows)
    got = [list(p) for p in iter_multipart_coordinates(arr, -1)]
    want = [[]]
    for c in rows:
        if c == -1:
            want.append([])
        else:
            want[-1].append(c)
    S.check(got == want, 'parts')


def subset(S, kind, start, op='intersects', touches=True, masked=False, boxes=1, n=2, workers=None, reduce=False):
    """Selecting elements of a mesh: the selected ones keep their coordinates and data."""
    S.lazy()
    if kind == 'rect':
        bs = [tuple(geo.sym_box(S, 'g%d' % i)) for i in range(n)]
        order = np.array([(5 * k + 3) % (4 * n) for k in range(4 * n)])  # Node of a corner.
        corners = [c for b in bs for c in ((b[0], b[1]), (b[2], b[1]), (b[2], b[3]), (b[0], b[3]))]
        assert sorted(order) == list(range(4 * n))
    else:
        bs = []
        for i in range(n):
            p = S.real('g%d.x' % i), S.real('g%d.y' % i)
            bs.append(p + p)
        # There is a node that is not an element.
        order = np.array([n - i for i in range(n)])
        corners = [b[:2] for b in bs]
    nodes = max(order) + 1
    x, y = np.zeros(nodes, dtype=object), np.zeros(nodes, dtype=object)
    for c, k in zip(corners, order):
        x[k], y[k] = c
    if kind == 'point':
        x[0], y[0] = S.real('other.x'), S.real('other.y')
    x, y = S.array(x, 'f'), S.array(y, 'f')
    conn = (order + start).reshape(n, -1)
    target = [tuple(geo.sym_box(S, 'box%d' % k)) for k in range(boxes)]
    if boxes > 1:
        S.assume(target[0][2] < target[1][0])
    mask = np.array(S.mask('m', (n,))) if masked else np.zeros(n, dtype=bool)
    v = S.reals('v', (n,))
    accept = geo.box_meets if touches else geo.box_overlaps
    keep = [S.and_(not bool(h), S.any_([accept(S, b, t) for t in target] + [False])) for h, b in zip(mask, bs)]
    t = geo.make_box(S, *target[0]) if boxes == 1 else geo.make_multi(S, target)
    cut = [0, n] if workers is None else np.cumsum([0] + list(workers)).tolist()

    def f(rank):
        lo, hi = cut[rank], cut[rank + 1]
        dim = Dimension('element', n) if workers is None else create_distributed_dimension(hi - lo, name='element', src_idx=(lo, hi))
        cv = Variable('conn', value=conn[lo:hi], dimensions=[dim, 'corner'], attrs={'start_index': start})
        gc = (PolygonGC if kind == 'rect' else PointGC)(x=Variable('x', value=x.copy(), dimensions='node'), y=Variable('y', value=y.copy(), dimensions='node'), cindex=cv)
        if masked:
            gc.set_mask(mask[lo:hi].copy())
        fld = Field(grid=GridUnstruct(geoms=[gc]))
        fld.add_variable(Variable('d', value=v[lo:hi].copy(), dimensions=[dim]), is_data=True)
        r, s = fld.grid.get_spatial_subset_operation(op, t, keep_touches=touches, return_slice=True)
        same = gc.cindex.get_value()
        S.check(bool(np.all(same == conn[lo:hi])) and fld['d'].shape == (hi - lo,), 'the mesh is unchanged')
        gm = gc.get_mask()
        S.check((gm is None and not masked) or [bool(k) for k in gm] == [bool(k) for k in mask[lo:hi]], 'the mask is unchanged')
        got = [bool(k) for k in s]
        S.check(len(got) == hi - lo, 'one flag per element')
        for i in range(hi - lo):
            S.check(S.iff(keep[lo + i], got[i]), 'selected')
        if not any(got):
            S.check(r.is_empty, 'empty')
            d = None
            if op == 'intersection' or workers is None or not reduce:
                return d
        idx = [lo + i for i in range(hi - lo) if got[i]]
        d = r.parent['d']
        S.check(d.shape == (len(idx),) and S.all_([S.eq(a, v[i]) for a, i in zip(d.get_value().flat, idx)]), 'data of the elements')
        S.check(d.get_mask() is None or not d.get_mask().any(), 'nothing is masked')
        S.check((d.dimensions[0].size == len(idx)) or workers is not None, 'size of the dimension')
        if op == 'intersection':
            gv = r.get_value()
            S.check(gv.shape == (len(idx),) and (r.get_mask() is None or not r.get_mask().any()), 'shape of the intersection')
            for g, i in zip(gv, idx):
                for p in geo.part_bounds(g):
                    S.check(S.any_([S.and_(*[S.eq(a, b) for a, b in zip(p, (S.max(bs[i][0], w[0]), S.max(bs[i][1], w[1]), S.min(bs[i][2], w[2]), S.min(bs[i][3], w[3])))])
                                    for w in target]), 'intersection')
            return d
        h = r.archetype
        for k in range(2 if reduce and workers is None else 1):
            gs = list(h.get_geometry_iterable(with_index=False))
            S.check(len(gs) == len(idx), 'elements')
            for g, i in zip(gs, idx):
                p = geo.part_bounds(g)
                S.check(len(p) == 1 and S.all_([S.eq(a, b) for a, b in zip(p[0], bs[i])]), 'coordinates of the elements')
            if reduce and workers is None and k == 0:
                h = h.reduce_global()
                S.check(h.x.shape == (len(idx) * conn.shape[1],), 'only coordinates referred to')
        return d
    if workers is None:
        f(0)
    else:
        ranks.values(ranks.run(len(workers), f))


subset.swaps = geo.SWAPS


def tasks(tier):
    deep = tier == 'thorough'
    out = [(split, {'n': 4})]
    for layout in ('tri', 'parts', 'some', 'three', 'point'):
        for start in (0, 1):
            for k, how in enumerate((None, 'bool', 'slice', 'distributed', 'field')):
                out.append((elements, {'layout': layout, 'start': start, 'how': how, 'masked': bool(k % 2), 'explicit': k == 2, 'z': k == 3}))
    for layout in ('pair', 'split', 'single'):
        for k, (start, how) in enumerate(itertools.product((0, 1), (None, 'bool', 'distributed', 'field'))):
            if not deep and layout == 'split' and k not in (1, 6, 7):
                continue
            out.append((elements, {'layout': layout, 'start': start, 'how': how, 'concrete': True, 'explicit': k == 2, 'masked': k in (0, 5), 'z': k == 7, 'nodes': 3}))
    for layout, start, cut in itertools.product(('pair', 'triple', 'split'), (0, 1), (1, 2)):
        if cut < len(LAYOUTS[layout]):
            out.append((reduced_workers, {'layout': layout, 'start': start, 'cut': cut}))
    for layout, start, driver in itertools.product(('pair', 'split', 'uneven'), (0, 1), (DriverKey.NETCDF_UGRID, DriverKey.NETCDF_ESMF_UNSTRUCT)):
        if not deep and layout == 'split' and start == (driver == DriverKey.NETCDF_UGRID):
            continue
        if layout != 'uneven' or driver == DriverKey.NETCDF_ESMF_UNSTRUCT:
            out.append((files, {'layout': layout, 'start': start, 'driver': driver, 'part': False}))
    for k, (kind, op, masked, touches) in enumerate(itertools.product(('rect', 'point'), ('intersects', 'intersection'), (False, True), (True, False))):
        out.append((subset, {'kind': kind, 'op': op, 'masked': masked, 'touches': touches, 'start': k % 2, 'reduce': True, 'n': 2 if kind == 'rect' else 3}))
        if not masked:
            out.append((subset, {'kind': kind, 'op': op, 'touches': touches, 'start': (k + 1) % 2, 'boxes': 2 if deep or kind == 'point' or op == 'intersects' else 1, 'workers': (1, 1) if touches else None}))
    out += [(ragged, {'sizes': (3, 4), 'start': s}) for s in (0, 1)]
    out.append((files, {'layout': 'pair', 'start': 0, 'driver': DriverKey.NETCDF_ESMF_UNSTRUCT, 'part': True}))
    out += [(reindex, {'shape': (3,), 'top': 3, 'start': 0}), (reindex, {'shape': (2, 2), 'top': 3, 'start': 1})]
    for k, sizes in enumerate(((1, 2), (2, 1), (1, 2, 1), (2, 1, 1), (1, 1, 2))):
        out.append((parallel, {'sizes': sizes, 'top': 3 if sum(sizes) < 4 or deep else 2, 'start': k % 2}))
    # Ranks look for messages before they are there.
    out += [(parallel, {'sizes': (1, 2, 2), 'top': 2, 'start': 1, 'late': 2}), (parallel, {'sizes': (1, 1, 2), 'top': 3, 'start': 0, 'late': 3}),
            (parallel, {'sizes': (1, 2, 1), 'top': 3, 'start': 0, 'late': 2})]
    if deep:
        out += [(reindex, {'shape': (5,), 'top': 4, 'start': 1}), (parallel, {'sizes': (1, 2, 2), 'top': 3, 'start': 0, 'late': 3}),
                (parallel, {'sizes': (1, 1, 1, 1), 'top': 3, 'start': 0, 'late': 2}), (parallel, {'sizes': (2, 2), 'top': 4, 'start': 1, 'late': 2}),
                (split, {'n': 6})]
        for k, (kind, op, touches) in enumerate(itertools.product(('rect', 'point'), ('intersects', 'intersection'), (True, False))):
            out.append((subset, {'kind': kind, 'op': op, 'touches': touches, 'start': k % 2, 'masked': True, 'workers': (2, 1), 'n': 3}))
    return out
