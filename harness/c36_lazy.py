"""C36: variables that are read from a source when needed give the same data as variables read first."""
import os

import numpy as np
from ocgis import Dimension, Field, Grid, RequestDataset, TemporalVariable, Variable
from ocgis.variable.crs import Spherical
from symex import fakenc

FUNCTIONS = ['ocgis.variable.base.SourcedVariable.{get_mask,load,_get_value_}', 'Variable.__getitem__', 'VariableCollection.__getitem__',
             'ocgis.collection.field.Field.{get_field_slice,copy}', 'ocgis.variable.dimension.Dimension.__getitem__ and source indices',
             'ocgis.driver.nc.{get_value_from_request_dataset,get_variable_value}', 'ocgis.driver.base.AbstractDriver.init_variable_value',
             'ocgis.driver.csv_.DriverCSV.get_variable_value', 'ocgis.vmachine.mpi.{identify_source_index_type,slice_source_index}']
BOUNDS = 'three-dimensional variables with up to 3x2x4 elements, any values, masks of one or two cells; up to three successive selections (slices, ' \
         'negative positions, boolean masks, index arrays, single positions) on one or two dimensions, with reading before, between or after them'
OUTSIDE = 'vector files, multi-file data sets, unit conversion on reading'
ASSUMPTIONS = ['symbolic runs use an in-memory model of the netCDF4 library (symex/fakenc.py); replayed runs use the real library on real files']

DIMS = ('time', 'y', 'x')


def index(S, name, n, kind):
    """An index of an axis of length n that selects something, and the positions it selects."""
    rng = list(range(n))
    if kind == 'slice':
        a = S.cint(name + '.a', 0, n - 1)
        b = S.cint(name + '.b', a + 1, n)
        return slice(a, b), rng[a:b]
    if kind == 'open':
        a = S.cint(name + '.a', -n, n - 1)
        return (slice(a, None), rng[a:]) if S.cbool(name + '.end') or a in (0, -n) else (slice(None, a), rng[:a])
    if kind == 'int':
        i = S.cint(name + '.i', -n, n - 1)
        return i, [rng[i]]
    if kind == 'bool':
        m = [S.cbool('%s.m%d' % (name, k)) for k in range(n)]
        S.assume(S.or_(*m))
        return np.array(m), [k for k in rng if m[k]]
    if kind == 'fancy':
        k = S.cint(name + '.k', 1, 2)
        i = [S.cint('%s.f%d' % (name, j), -1, n - 1) for j in range(k)]
        return np.array(i), [rng[j] for j in i]
    raise NotImplementedError(kind)


def build(S, path, sizes, masked):
    dd = {k: Dimension(k, size=sizes[k]) for k in DIMS}
    f = Field(name='fld', crs=Spherical())
    ref = {}

    def add(name, dims, mask=0, **kw):
        shape = tuple(sizes.get(d, 2) for d in dims)
        v = S.reals(name, shape, -1000, 1000)
        m = np.zeros(shape, dtype=bool)
        for k, i in enumerate(np.ndindex(*shape)):
            if k % 3 == 1 and k // 3 < mask:
                m[i] = S.cbool('mask_%s_%d' % (name, k))
        ref[name] = {i: v[i] for i in np.ndindex(*shape)}, {i: bool(m[i]) for i in np.ndindex(*shape)}, dims
        return Variable(name=name, value=v, mask=m if mask else None, dimensions=[dd.get(d, d) for d in dims], **kw)

    x = add('lon', ('x',), bounds=add('lon_bounds', ('x', 'bounds')))
    y = add('lat', ('y',))
    f.set_grid(Grid(x, y))
    f.set_time(TemporalVariable(name='time', value=np.arange(float(sizes['time'])), dimensions=dd['time'], units='days since 2000-01-01'))
    f.add_variable(add('tas', DIMS, masked), is_data=True)
    f.add_variable(add('other', ('x', 'time')))
    f.write(path)
    return ref


def same(S, v, ref, pos):
    rv, rm, dims = ref
    p = [pos.get(d, range(2)) for d in dims]
    S.check(v.shape == tuple(len(k) for k in p), 'shape')
    value, mask = v.get_value(), v.get_mask()
    for i in np.ndindex(*v.shape):
        j = tuple(p[a][k] for a, k in enumerate(i))
        S.check((False if mask is None else bool(mask[i])) == rm[j], 'mask')
        if not rm[j]:
            S.check(S.eq(value[i], rv[j]), 'value')


class Requests(object):
    """Counts the elements read from the (model of the) source."""

    def __init__(self, S):
        self.S, self.sizes = S, []

    def __enter__(self):
        self.real = fakenc.Variable.__getitem__

        def get(v, key):
            r = self.real(v, key)
            self.sizes.append((v._name, int(np.size(r))))
            return r

        fakenc.Variable.__getitem__ = get
        return self

    def __exit__(self, *a):
        fakenc.Variable.__getitem__ = self.real


def netcdf(S, steps, sizes, masked=1, how='field', load=()):
    """``steps`` is a list of {dimension: kind of index}; ``load`` the numbers of steps before which data is read."""
    with fakenc.scratch() as d:
        path = os.path.join(d, 'a.nc')
        ref = build(S, path, sizes, masked)
        pos = {k: list(range(sizes[k])) for k in DIMS}
        f = RequestDataset(path).get()
        held = []
        with Requests(S) as req:
            for k, step in enumerate(steps):
                if k in load:
                    if S.cbool('load%d' % k):
                        f.load()
                    else:
                        f['tas'].get_mask()
                slc = {}
                before = {n: list(v) for n, v in pos.items()}
                held.append((f, before))
                for dim, kind in step.items():
                    slc[dim], sel = index(S, 's%d.%s' % (k, dim), len(pos[dim]), kind)
                    pos = dict(pos, **{dim: [pos[dim][i] for i in sel]})
                if how == 'copy':
                    f = f.copy()
                if how == 'roles':
                    f = f.get_field_slice(slc)
                elif how == 'variable':
                    v = f['tas']
                    f = v[[slc.get(n, slice(None)) for n in v.dimension_names]].parent
                else:
                    f = f[slc]
            if not load and S.symbolic:
                S.check(not [r for r in req.sizes if r[0] == 'tas'], 'nothing is read before it is needed')
            same(S, f['tas'], ref['tas'], pos)
            if not load and S.symbolic:
                n = [s for v, s in req.sizes if v == 'tas']
                S.check(n == [len(pos['time']) * len(pos['y']) * len(pos['x'])], 'only the needed part is read, once')
            same(S, f['tas'], ref['tas'], pos)
        for n in ('lon', 'lat', 'other', 'lon_bounds'):
            same(S, f[n], ref[n], pos)
        S.check([int(t) for t in f['time'].get_value()] == pos['time'], 'time')
        # What was sliced still refers to its own part.
        for g, p in held:
            same(S, g['tas'], ref['tas'], p)
        # Data read after the selection is written with it.
        second = os.path.join(d, 'b.nc')
        g = RequestDataset(path).get()
        if len(steps) == 1:
            slc = {k: np.array(pos[k]) for k in steps[0]}
            g[slc].write(second)
            h = RequestDataset(second).get()
            for n in ('tas', 'lon', 'other'):
                same(S, h[n], ref[n], pos)


def csv(S, kinds, n, load=False, how='field'):
    with fakenc.scratch() as d:
        path = os.path.join(d, 'a.csv')
        with open(path, 'w') as o:
            o.write('a,b\n' + ''.join('%d,%d\n' % (i, 10 + i * i) for i in range(n)))
        f = RequestDataset(path).get()
        if load:
            f['a'].get_value()
        pos = list(range(n))
        for k, kind in enumerate(kinds):
            slc, sel = index(S, 's%d' % k, len(pos), kind)
            pos = [pos[i] for i in sel]
            f = f[{'n_records': slc}] if how == 'field' else f['b'][slc].parent
        S.check([str(v) for v in f['b'].get_value()] == [str(10 + i * i) for i in pos], 'rows of the second column')
        S.check([str(v) for v in f['a'].get_value()] == [str(i) for i in pos], 'rows of the first column')
        f.add_variable(Variable(name='c', value=np.arange(float(len(pos))), dimensions='n_records'), force=True)
        g = RequestDataset(path).get()
        g['a'].set_value(['new'] * n)
        S.check([str(v) for v in g['b'].get_value()] == [str(10 + i * i) for i in range(n)], 'other column')
        S.check([str(v) for v in g['a'].get_value()] == ['new'] * n, 'reading one column keeps the values set on another')


netcdf.patches = csv.patches = fakenc.patches()


def tasks(tier):
    th = tier == 'thorough'
    s = {'time': 3, 'y': 2, 'x': 4}
    out = []

    def add(steps, **kw):
        out.append((netcdf, dict({'steps': steps, 'sizes': s}, **kw)))

    kinds = ['slice', 'open', 'int', 'bool', 'fancy']
    for k in kinds:
        add([{'x': k}])
        add([{'time': k, 'x': 'int'}], how='variable', masked=2)
        add([{'time': k}], load=(0,), how='roles')
    for a in kinds:
        for b in kinds:
            add([{'time': a}, {'time': b}], masked=1, how='field' if a != 'bool' else 'roles')
            if th or (a == 'slice' or b == 'slice'):
                add([{'x': a}, {'time': b}], masked=0, how='variable', load=(1,))
                add([{'x': a, 'time': b}], masked=1, how='copy')
    for a, b, c in (('slice', 'fancy', 'slice'), ('bool', 'slice', 'open'), ('fancy', 'bool', 'int'), ('open', 'open', 'open')):
        if th or c != 'open':
            add([{'time': a}, {'time': b}, {'time': c}], masked=0)
        if th or c == 'slice':
            add([{'time': a}, {'y': b}, {'time': c}], masked=0, load=(1,))
    for a in kinds:
        for b in kinds:
            out.append((csv, {'kinds': [a, b], 'n': 3, 'load': a == b, 'how': 'variable' if a == 'slice' else 'field'}))
    return out
