"""
An in-memory model of the netCDF4 library for symbolic runs.

Only what the library documents is modelled: named dimensions, attributes, groups, orthogonal indexing, fill values for
masked or unwritten elements, and masks on reading where the fill value is stored.  Concrete runs (replays) use the real
library on files in a scratch directory, so a wrong model shows up as a replay that differs.
"""
import os
import shutil
import tempfile
from collections import OrderedDict
from contextlib import contextmanager

import numpy as np

from .arrays import SymArray, _contains_sym
from .engine import Unsupported, active, is_sym

FILES = {}
DEFAULT_FILL = {'S1': '\x00', 'i1': -127, 'u1': 255, 'i2': -32767, 'u2': 65535, 'i4': -2147483647, 'u4': 4294967295,
                'i8': -9223372036854775806, 'u8': 18446744073709551614, 'f4': 9.969209968386869e+36, 'f8': 9.969209968386869e+36}


class Attrs(object):
    __slots__ = ('__dict__',)

    def ncattrs(self):
        return list(self.__dict__)

    def getncattr(self, name, *args):
        if name not in self.__dict__:
            raise AttributeError('NetCDF: Attribute not found')
        return self.__dict__[name]

    def setncattr(self, name, value):
        if isinstance(value, (list, tuple)):
            value = np.array(value)
            value = value[0] if value.size == 1 else value
        elif isinstance(value, (bool, np.bool_)):
            raise TypeError("illegal data type for attribute, must be one of ...")
        elif isinstance(value, np.ndarray):
            value = value.reshape(-1)[0] if value.size == 1 else value.copy()
        elif isinstance(value, int):
            value = np.int64(value)
        elif isinstance(value, float):
            value = np.float64(value)
        self.__dict__[name] = value

    def setncatts(self, d):
        for k, v in d.items():
            self.setncattr(k, v)

    def delncattr(self, name):
        del self.__dict__[name]


class Dimension(object):
    def __init__(self, ds, name, size):
        self.ds, self.name, self._size = ds, name, size

    def isunlimited(self):
        return self._size is None

    def __len__(self):
        if self._size is not None:
            return self._size
        sizes = [0]
        todo = [self.ds]
        while todo:
            d = todo.pop()
            todo += list(d.groups.values())
            for v in d.variables.values():
                if self.name in v.dimensions and v._dims[v.dimensions.index(self.name)] is self:
                    sizes.append(v._data.shape[v.dimensions.index(self.name)])
        return max(sizes)

    @property
    def size(self):
        return len(self)


class Variable(Attrs):
    __slots__ = ('_name', '_data', '_mask', '_dims', '_ds', 'dtype', 'dimensions', 'kwargs')

    def __init__(self, ds, name, dtype, dims, fill_value, kwargs):
        self._ds, self._name, self._dims, self.kwargs = ds, name, dims, kwargs
        self.dtype = str if dtype in (str, 'str') else np.dtype(dtype)
        if self.dtype is not str and self.dtype.kind not in 'fiuS':
            raise TypeError('illegal primitive data type, must be one of ..., got {}'.format(self.dtype))
        if self.dtype is not str and self.dtype.kind == 'S' and self.dtype.itemsize != 1:
            raise TypeError('illegal primitive data type')
        self.dimensions = tuple(d.name for d in dims)
        shape = tuple(len(d) for d in dims)
        self._data = np.zeros(shape, dtype=object)
        self._mask = np.ones(shape, dtype=bool)
        if fill_value is not None and fill_value is not False:
            self.__dict__['_FillValue'] = self.dtype.type(fill_value)

    name = property(lambda s: s._name)
    shape = property(lambda s: tuple(len(d) for d in s._dims))
    ndim = property(lambda s: len(s._dims))
    size = property(lambda s: int(np.prod(s.shape)))
    datatype = property(lambda s: s.dtype)

    def __len__(self):
        if not self._dims:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def set_collective(self, value):
        pass

    set_auto_mask = set_auto_scale = set_auto_maskandscale = set_always_mask = set_collective

    def _grow(self, shape):
        if shape != self._data.shape:
            d, m = np.zeros(shape, dtype=object), np.ones(shape, dtype=bool)
            key = tuple(slice(0, s) for s in self._data.shape)
            d[key], m[key] = self._data, self._mask
            self._data, self._mask = d, m

    def _key(self, key, write, value=None):
        if isinstance(key, list) and any(isinstance(k, slice) for k in key):
            key = tuple(key)
        key = key if isinstance(key, tuple) else (key,)
        if any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            key = key[:i] + (slice(None),) * (self.ndim - len(key) + 1) + key[i + 1:]
        if len(key) > self.ndim and self.ndim:
            raise IndexError('index exceeds dimensions')
        key = key + (slice(None),) * (self.ndim - len(key))
        out, drop, shape = [], [], list(self._data.shape)
        vshape = None if value is None else list(np.shape(value))
        for ax in range(self.ndim):
            k, n = key[ax], len(self._dims[ax])
            unlimited = self._dims[ax].isunlimited()
            if isinstance(k, slice):
                start, stop, step = k.start, k.stop, k.step
                if write and unlimited and (stop is None or stop > n) and step in (None, 1):
                    if stop is None:
                        length = vshape[ax - self.ndim + len(vshape)] if len(vshape) >= self.ndim - ax else n
                        stop = max(n, (start or 0) + length)
                    idx = np.arange(start or 0, stop)
                else:
                    idx = np.arange(n)[k]
            elif isinstance(k, (int, np.integer)):
                k = int(k)
                if not (write and unlimited) and not -n <= k < n:
                    raise IndexError('index exceeds dimension bounds')
                idx = np.array([k % n if n and k < 0 else k])
                drop.append(ax)
            else:
                k = np.asarray(k)
                if k.ndim != 1:
                    raise IndexError('Index cannot be multidimensional')
                if k.dtype == bool:
                    if len(k) != n:
                        raise IndexError('Boolean array must have the same shape as the data along this dimension.')
                    k = np.flatnonzero(k)
                k = k.astype(int)
                if not (write and unlimited) and (np.any(k < -n) or np.any(k >= n)):
                    raise IndexError('index exceeds dimension bounds')
                idx = np.where(k < 0, k + n, k)
            if write and unlimited and idx.size and idx.max() >= shape[ax]:
                shape[ax] = int(idx.max()) + 1
            out.append(idx)
        if not write:
            shape = list(self.shape)
        self._grow(tuple(shape))
        return out, drop

    def __getitem__(self, key):
        if self.ndim == 0:
            key, drop = [], []
        else:
            key, drop = self._key(key, False)
        if key:
            data, mask = self._data[np.ix_(*key)], self._mask[np.ix_(*key)]
        else:
            data, mask = self._data.copy(), self._mask.copy()
        for ax in reversed(drop):
            data, mask = data.reshape(data.shape[:ax] + data.shape[ax + 1:]), mask.reshape(mask.shape[:ax] + mask.shape[ax + 1:])
        return self._result(data, mask)

    def _fill(self):
        if '_FillValue' in self.__dict__:
            return self.__dict__['_FillValue']
        if 'missing_value' in self.__dict__:
            return self.dtype.type(np.asarray(self.__dict__['missing_value']).reshape(-1)[0])
        return self.dtype.type(DEFAULT_FILL[self.dtype.str[1:]])

    def _result(self, data, mask):
        if self.dtype is str:
            return data if data.ndim else data[()]
        fill = self._fill()
        out = data.copy()
        out[mask] = fill
        if _contains_sym(out):
            arr = SymArray(out, kind='i' if self.dtype.kind in 'iu' else self.dtype.kind)
            masked = mask.copy()
        else:
            arr = np.array(out.tolist(), dtype=self.dtype).reshape(out.shape)
            masked = mask.copy()
        if masked.any() or self._ds._root()._always_mask:
            if arr.ndim == 0:
                return np.ma.masked if masked else arr[()]
            r = np.ma.array(arr, mask=masked)
            if not isinstance(arr, SymArray):
                r.set_fill_value(fill)
            return r
        return arr if arr.ndim or isinstance(arr, SymArray) else arr

    def __setitem__(self, key, value):
        if self._ds._root()._mode == 'r':
            raise RuntimeError('NetCDF: Write to read only')
        mask = None
        if isinstance(value, np.ma.MaskedArray):
            mask = np.ma.getmaskarray(value)
            value = np.ma.getdata(value)
        if value is np.ma.masked:
            mask, value = np.array(True), np.array(0.)
        sym = isinstance(value, SymArray) or is_sym(value)
        if self.dtype is not str and not sym and not _contains_sym(value):
            value = np.asarray(value)
            if value.dtype == object:
                value = np.array(value.tolist())
            value = value.astype(self.dtype, casting='unsafe')
            conv = np.empty(value.shape, dtype=object)
            for i in np.ndindex(*value.shape):
                conv[i] = value[i].item() if self.dtype.kind != 'S' else value[i]
            value = conv
        elif sym:
            if self.dtype.kind not in 'fiu':
                raise Unsupported('symbolic data in a variable of type {}'.format(self.dtype))
            v = SymArray(value) if not isinstance(value, SymArray) else value
            value = v.astype(self.dtype).view(np.ndarray)
        else:
            v = np.empty(np.shape(value), dtype=object)
            v[...] = value
            value = v
        if self.ndim == 0:
            self._data[...] = np.asarray(value, dtype=object).reshape(-1)[0]
            self._mask[...] = False if mask is None else bool(np.asarray(mask).reshape(-1)[0])
            return
        key, drop = self._key(key, True, value)
        shape = tuple(len(k) for k in key)
        target = tuple(n for ax, n in enumerate(shape) if ax not in drop)

        def place(a):
            a = np.asarray(a)
            while a.ndim > len(target) and a.shape[0] == 1:
                a = a.reshape(a.shape[1:])
            if a.ndim and a.size == int(np.prod(target)):
                return a.reshape(shape)
            b = np.empty(target, dtype=object)
            b[...] = a
            return b.reshape(shape)

        self._data[np.ix_(*key)] = place(value)
        self._mask[np.ix_(*key)] = place(mask).astype(bool) if mask is not None else False


class Dataset(Attrs):
    __slots__ = ('variables', 'dimensions', 'groups', 'parent', 'name', 'file_format', '_mode', '_always_mask', '_path', '_open')

    def __new__(cls, path=None, mode='r', **kwargs):
        if cls is Dataset and mode != 'w':
            real = os.path.realpath(path)
            if real not in FILES:
                raise OSError(2, 'No such file or directory', path)
            return FILES[real]
        return super(Dataset, cls).__new__(cls)

    def __init__(self, path=None, mode='r', clobber=True, format='NETCDF4', **kwargs):
        if mode == 'w':
            self._setup(None, '/', format)
            self._path = os.path.realpath(path)
            FILES[self._path] = self
            open(self._path, 'w').close()
        self._mode, self._open = mode, True
        self._always_mask = True

    def _setup(self, parent, name, fmt):
        self.variables, self.dimensions, self.groups = OrderedDict(), OrderedDict(), OrderedDict()
        self.parent, self.name, self.file_format = parent, name, fmt
        self._always_mask, self._mode, self._open, self._path = True, 'w', True, None

    data_model = property(lambda s: s.file_format)

    def _root(self):
        r = self
        while r.parent is not None:
            r = r.parent
        return r

    def __getitem__(self, name):
        d = self
        parts = name.strip('/').split('/')
        for p in parts[:-1]:
            d = d.groups[p]
        return d.groups[parts[-1]] if parts[-1] in d.groups else d.variables[parts[-1]]

    def set_always_mask(self, value):
        self._always_mask = bool(value)

    def set_auto_mask(self, value):
        pass

    def createDimension(self, name, size=None):
        if name in self.dimensions:
            raise RuntimeError('NetCDF: String match to name in use')
        if size is not None:
            size = int(size) or None
        self.dimensions[name] = Dimension(self, name, size)
        return self.dimensions[name]

    def _find(self, name):
        d = self
        while d is not None:
            if name in d.dimensions:
                return d.dimensions[name]
            d = d.parent
        raise ValueError('cannot find dimension {} in this group or parent groups'.format(name))

    def createVariable(self, name, datatype, dimensions=(), fill_value=None, **kwargs):
        if name in self.variables:
            raise RuntimeError('NetCDF: String match to name in use')
        dimensions = (dimensions,) if isinstance(dimensions, str) else dimensions
        v = Variable(self, name, datatype, [self._find(d) for d in dimensions], fill_value, kwargs)
        self.variables[name] = v
        return v

    def createGroup(self, name):
        return self.groups.get(name) or Group(self, name)

    def renameVariable(self, old, new):
        self.variables = OrderedDict((new if k == old else k, v) for k, v in self.variables.items())
        self.variables[new]._name = new

    def sync(self):
        pass

    def close(self):
        if not self._open:
            raise RuntimeError('NetCDF: Not a valid ID')
        self._open = False

    def isopen(self):
        return self._open

    def __enter__(self):
        return self

    def __exit__(self, *args):
        if self._open:
            self.close()


class Group(Dataset):
    __slots__ = ()

    def __init__(self, parent, name, **kwargs):
        self._setup(parent, name, parent.file_format)
        parent.groups[name] = self

    path = property(lambda s: '/' + s.name)


class NCShim(object):
    """The netCDF4 module with the data set classes replaced in symbolic runs."""

    def __init__(self):
        import netCDF4
        self._real = netCDF4

    def __getattr__(self, name):
        if active():
            if name in ('Dataset', 'Group', 'Variable', 'Dimension'):
                return globals()[name]
            if name in ('MFDataset', 'MFTime', 'VLType'):
                raise Unsupported('netCDF4.' + name)
        return getattr(self._real, name)


@contextmanager
def scratch():
    """A scratch directory holding the files of one run. Nothing of it is left afterwards."""
    path = os.path.realpath(tempfile.mkdtemp(prefix='ocgis_verif_'))
    try:
        yield path
    finally:
        for k in [k for k in FILES if k.startswith(path + os.sep)]:
            del FILES[k]
        shutil.rmtree(path, ignore_errors=True)


def patches():
    import ocgis.spatial.grid_chunker  # noqa: F401
    import ocgis.util.large_array  # noqa: F401
    shim = NCShim()
    return {(m, 'nc'): shim for m in ('ocgis.driver.nc', 'ocgis.util.large_array', 'ocgis.spatial.grid_chunker')}
