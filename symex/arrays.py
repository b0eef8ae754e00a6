"""Numpy arrays holding symbolic elements, and the numpy stand-in seen by ocgis modules during a symbolic run.

``SymArray`` is a real ``np.ndarray`` with object storage, so all indexing, slicing, broadcasting, reshaping and copying
is numpy's own.  Only element arithmetic (ufuncs) is redirected to the symbolic scalars.  The array reports the dtype it
stands for (float64, int64 or bool).
"""
import builtins
import math

import numpy as np

from . import engine as E
from .engine import (SymBool, SymNum, Unsupported, is_sym, mkbool, sym_and, sym_ite, sym_max, sym_min, sym_not, sym_or)

_REAL_DTYPE = np.ndarray.dtype.__get__
KIND_DTYPE = {'f': np.dtype(np.float64), 'i': np.dtype(np.int64), 'b': np.dtype(bool), 'O': np.dtype(object)}

# numpy.ma needs extreme fill values for object arrays when taking masked minima and maxima.
np.ma.core.max_filler.setdefault(np.dtype('O'), -np.inf)
np.ma.core.min_filler.setdefault(np.dtype('O'), np.inf)

LAZY = False  # When true, elementwise comparisons stay symbolic instead of forking.


def set_lazy(flag):
    global LAZY
    LAZY = flag


def scalar_kind(v):
    if isinstance(v, SymBool) or isinstance(v, (bool, np.bool_)):
        return 'b'
    if isinstance(v, SymNum):
        return 'i' if v.e.is_int() else 'f'
    if isinstance(v, (int, np.integer)):
        return 'i'
    if isinstance(v, (float, np.floating)):
        return 'f'
    return 'O'


_RANK = {'b': 0, 'i': 1, 'f': 2, 'O': 3}


def infer_kind(flat):
    kind = None
    for v in flat:
        k = scalar_kind(v)
        if kind is None or _RANK[k] > _RANK[kind]:
            kind = k
    return kind or 'f'


def cast_scalar(v, dtype):
    k = dtype.kind
    if k == 'f':
        if isinstance(v, SymNum):
            return v.toreal()
        if isinstance(v, SymBool):
            return v.num().toreal()
        return np.dtype(dtype).type(v)
    if k in 'iu':
        if isinstance(v, SymNum):
            return v.__trunc__()
        if isinstance(v, SymBool):
            return v.num()
        return int(v)
    if k == 'b':
        if isinstance(v, SymNum):
            return v != 0
        if isinstance(v, SymBool):
            return v
        return bool(v)
    if k == 'O':
        return v
    raise Unsupported('cast of a symbolic value to {}'.format(dtype))


def _objarray(data):
    """Build a plain object ndarray from nested data without coercing elements."""
    if isinstance(data, np.ndarray):
        if _REAL_DTYPE(data) == object:
            return data.view(np.ndarray)
        return data.astype(object).view(np.ndarray)
    if is_sym(data) or not isinstance(data, (list, tuple)):
        a = np.empty((), dtype=object)
        a[()] = data
        return a
    return np.array(data, dtype=object)


def rebuild(obj, kind):
    a = obj.view(SymArray)
    a._kind = kind
    return a


class SymArray(np.ndarray):
    __array_priority__ = 100.

    def __new__(cls, data, kind=None):
        a = _objarray(data)
        if a is data:
            a = a.copy()
        a = a.view(cls)
        a._kind = kind
        return a

    def __array_finalize__(self, obj):
        self._kind = getattr(obj, '_kind', None)

    @property
    def kind(self):
        if self._kind is None:
            self._kind = infer_kind(self.view(np.ndarray).flat)
        return self._kind

    @property
    def dtype(self):
        real = _REAL_DTYPE(self)
        if real != object:
            return real
        return KIND_DTYPE[self.kind]

    @dtype.setter
    def dtype(self, value):
        pass

    def __reduce__(self):
        return rebuild, (self.view(np.ndarray), self._kind)

    def __deepcopy__(self, memo):
        return self.copy()

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return dispatch_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        handler = FUNCTIONS.get(func)
        if handler is not None:
            return handler(*args, **kwargs)
        impl = getattr(func, '_implementation', None)
        if impl is None:
            return super(SymArray, self).__array_function__(func, types, args, kwargs)
        return _wrap_result(impl(*args, **kwargs))

    def __getitem__(self, item):
        if LAZY == 'gather' and isinstance(item, SymArray) and self.ndim == 1 and item.kind == 'i' and any(is_sym(i) for i in item.view(np.ndarray).flat):
            return _gather(self, item)
        ret = super(SymArray, self).__getitem__(_index(item))
        return ret if isinstance(ret, np.ndarray) else _scalar_out(ret)

    def __setitem__(self, item, value):
        item = _index(item)
        if not isinstance(value, np.ndarray) and not is_sym(value) and isinstance(value, (list, tuple)):
            value = _objarray(value)
        if isinstance(value, np.ma.MaskedArray):
            value = value.data
        k = self.kind
        if isinstance(value, np.ndarray):
            if k in 'fib':
                value = _cast_obj(value, KIND_DTYPE[k])
        elif k in 'fib':
            value = cast_scalar(value, KIND_DTYPE[k])
        super(SymArray, self).__setitem__(item, value)

    def item(self, *args):
        return _scalar_out(super(SymArray, self).item(*args))

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        dtype = np.dtype(dtype)
        if dtype == object:
            return self.copy()
        out = _cast_obj(self.view(np.ndarray), dtype).view(SymArray)
        out._kind = 'i' if dtype.kind == 'u' else dtype.kind
        if dtype.kind == 'b' and not LAZY:
            return force_bool(out)
        return out

    def fill(self, value):
        self[...] = value

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _mean(self, axis=axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return _var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return np.sqrt(_var(self, axis=axis, ddof=ddof, keepdims=keepdims))

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return np.logical_or.reduce(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return np.logical_and.reduce(self, axis=axis, keepdims=keepdims)

    def nonzero(self):
        return np.nonzero(force_bool(self != 0 if self.kind != 'b' else self))

    def clip(self, min=None, max=None, out=None, **kw):
        r = self
        if min is not None:
            r = np.maximum(r, min)
        if max is not None:
            r = np.minimum(r, max)
        return r

    def round(self, decimals=0, out=None):
        if decimals:
            raise Unsupported('round to decimals')
        return np.rint(self)

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be used as an index')
        return self.item().__index__()

    def __bool__(self):
        if self.size == 1:
            return bool(self.item())
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def byteswap(self, *a, **k):
        raise Unsupported('byteswap')

    def tobytes(self, *a, **k):
        raise Unsupported('tobytes')

    tostring = tobytes


def _scalar_out(v):
    if isinstance(v, float) and not isinstance(v, np.floating):
        return np.float64(v)
    if isinstance(v, int) and not isinstance(v, (bool, np.integer)):
        return np.int64(v)
    if isinstance(v, bool):
        return np.bool_(v)
    return v


def _cast_obj(a, dtype):
    src = _objarray(a)
    if src.ndim == 0:
        out = np.empty((), dtype=object)
        out[()] = cast_scalar(src[()], dtype)
        return out
    out = np.empty(src.shape, dtype=object)
    o, s = out.reshape(-1), src.reshape(-1)
    for i in range(s.size):
        o[i] = cast_scalar(s[i], dtype)
    return out


def has_sym(a):
    return any(is_sym(v) for v in a.flat)


def force_bool(a):
    """Fork until every element is a Python bool; return a real bool array."""
    src = _objarray(a)
    out = np.empty(src.shape, dtype=bool)
    o, s = out.reshape(-1), src.reshape(-1)
    for i in range(s.size):
        o[i] = bool(s[i])
    return out


def force_int(a):
    src = _objarray(a)
    out = np.empty(src.shape, dtype=int)
    o, s = out.reshape(-1), src.reshape(-1)
    for i in range(s.size):
        o[i] = s[i].__index__() if isinstance(s[i], SymNum) else int(s[i])
    return out


def _gather(arr, index):
    """Elements of a one-dimensional array at symbolic positions, without a path per position."""
    n = arr.shape[0]
    out = np.empty(index.shape, dtype=object)
    o, src = out.reshape(-1), arr.view(np.ndarray)
    for k, i in enumerate(index.view(np.ndarray).flat):
        if not (sym_and(i >= -n, i < n) if is_sym(i) else -n <= i < n):
            raise IndexError('index {} is out of bounds for axis 0 with size {}'.format(i, n))
        v = src[n - 1]
        for q in range(n - 2, -1, -1):
            v = sym_ite(sym_or(i == q, i == q - n), src[q], v)
        o[k] = v
    r = out.view(SymArray)
    r._kind = arr.kind
    return r


def _index(item):
    if isinstance(item, tuple):
        return tuple(_index(i) for i in item)
    if isinstance(item, SymArray):
        if item.kind == 'b':
            return force_bool(item)
        if item.kind == 'i':
            return force_int(item)
        return item
    if isinstance(item, SymBool):
        return bool(item)
    if isinstance(item, SymNum):
        return item.__index__()
    if isinstance(item, list) and any(is_sym(i) for i in item):
        return _index(SymArray(item))
    return item


def _wrap_result(r):
    if type(r) is np.ndarray and _REAL_DTYPE(r) == object:
        if infer_kind(r.flat) == 'O':
            return r
        return r.view(SymArray)
    if isinstance(r, tuple):
        if hasattr(r, '_fields'):
            return r
        return tuple(_wrap_result(i) for i in r)
    if isinstance(r, list):
        return [_wrap_result(i) for i in r]
    return r


# ---------------------------------------------------------------------------------------------------------------------
# Element functions

def _np2(ufunc):
    """Concrete evaluation with numpy float64/int64 semantics."""

    def f(*args):
        with np.errstate(all='ignore'):
            return ufunc(*[_scalar_out(a) if isinstance(a, (bool, int, float)) else a for a in args])

    return f


def _num(v):
    if isinstance(v, SymBool):
        return v.num()
    return v.item() if isinstance(v, (np.bool_, np.number)) else v


def _e_floor(a):
    return a.floor()


def _e_divide(a, b):
    a, b = _num(a), _num(b)
    return a / b if is_sym(a) or is_sym(b) else _np2(np.true_divide)(a, b)


def _e_power(a, b):
    if isinstance(b, SymNum) and not isinstance(a, SymNum):
        return b.__rpow__(a)
    return a ** b


def _e_sign(a):
    return sym_ite(a > 0, 1.0, sym_ite(a < 0, -1.0, 0.0)) if not a.e.is_int() else sym_ite(a > 0, 1, sym_ite(a < 0, -1, 0))


def _e_fmax(a, b):
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return sym_max(a, b)


def _e_fmin(a, b):
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return sym_min(a, b)


def _isnan(v):
    return isinstance(v, (float, np.floating)) and math.isnan(v)


def _bitand(a, b):
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        raise Unsupported('bitwise operation on a symbolic integer')
    return sym_and(a, b)


def _bitor(a, b):
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        raise Unsupported('bitwise operation on a symbolic integer')
    return sym_or(a, b)


def _xor(a, b):
    return (a ^ b) if isinstance(a, SymBool) else (b ^ a)


def _truth(v):
    return v != 0 if isinstance(v, SymNum) else v


def _unsup(name):
    def f(*a):
        raise Unsupported('{} of a symbolic value'.format(name))

    return f


SCALAR = {
    'add': lambda a, b: _num(a) + _num(b),
    'subtract': lambda a, b: _num(a) - _num(b),
    'multiply': lambda a, b: sym_and(a, b) if _bb(a, b) else _num(a) * _num(b),
    'divide': _e_divide,
    'true_divide': _e_divide,
    'floor_divide': lambda a, b: _num(a) // _num(b),
    'remainder': lambda a, b: _num(a) % _num(b),
    'power': _e_power,
    'float_power': _e_power,
    'negative': lambda a: -_num(a),
    'positive': lambda a: a,
    'absolute': lambda a: abs(_num(a)),
    'fabs': lambda a: abs(_num(a)),
    'less': lambda a, b: _num(a) < _num(b),
    'less_equal': lambda a, b: _num(a) <= _num(b),
    'greater': lambda a, b: _num(a) > _num(b),
    'greater_equal': lambda a, b: _num(a) >= _num(b),
    'equal': lambda a, b: a == b,
    'not_equal': lambda a, b: a != b,
    'logical_and': lambda a, b: sym_and(_truth(a), _truth(b)),
    'logical_or': lambda a, b: sym_or(_truth(a), _truth(b)),
    'logical_xor': lambda a, b: _xor(_truth(a), _truth(b)),
    'logical_not': lambda a: sym_not(_truth(a)),
    'bitwise_and': _bitand,
    'bitwise_or': _bitor,
    'bitwise_xor': _xor,
    'invert': lambda a: sym_not(a) if isinstance(a, SymBool) else -a - 1,
    'maximum': sym_max,
    'minimum': sym_min,
    'fmax': _e_fmax,
    'fmin': _e_fmin,
    'floor': lambda a: a.floor(),
    'ceil': lambda a: a.ceil(),
    'trunc': lambda a: a.trunc() * 1.0 if not a.e.is_int() else a,
    'rint': lambda a: a.rint() * 1.0 if not a.e.is_int() else a,
    'isnan': lambda a: False,
    'isinf': lambda a: False,
    'isfinite': lambda a: True,
    'signbit': lambda a: a < 0,
    'sqrt': lambda a: a.sqrt(),
    'exp': lambda a: a.exp(),
    'log': lambda a: a.log(),
    'square': lambda a: a * a,
    'sign': _e_sign,
    'conjugate': lambda a: a,
    'reciprocal': lambda a: 1.0 / a,
    'deg2rad': lambda a: a * (math.pi / 180.),
    'radians': lambda a: a * (math.pi / 180.),
    'rad2deg': lambda a: a * (180. / math.pi),
    'degrees': lambda a: a * (180. / math.pi),
}
BOOL_OUT = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
            'logical_xor', 'logical_not', 'isnan', 'isinf', 'isfinite', 'signbit'}
IDENTITY = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False, 'bitwise_and': True,
            'bitwise_or': False}
FLOAT_OUT = {'divide', 'true_divide', 'sqrt', 'exp', 'log', 'deg2rad', 'radians', 'rad2deg', 'degrees', 'fabs', 'float_power'}


def _bb(a, b):
    return isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_))


def scalar_fn(ufunc):
    name = ufunc.__name__
    sym = SCALAR.get(name) or _unsup(name)
    con = _np2(ufunc)

    def f(*args):
        for a in args:
            if is_sym(a):
                return sym(*args)
        try:
            return con(*args)
        except TypeError:
            return sym(*args)

    return f


def _finish(out, kind, scalar):
    """out: object ndarray."""
    if kind == 'b' and (not LAZY or not has_sym(out)):
        out = force_bool(out)
        return out[()] if scalar else out
    if scalar:
        return _scalar_out(out[()])
    r = out.view(SymArray)
    r._kind = kind
    return r


def _result_kind(name, out):
    if name in BOOL_OUT:
        return 'b'
    k = infer_kind(out.flat) if out.size else 'f'
    if name in FLOAT_OUT and k in 'ib':
        k = 'f'
    return k


def dispatch_ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    if any(isinstance(i, np.ma.MaskedArray) for i in inputs):
        maf = getattr(np.ma, name, None)
        if method == '__call__' and maf is not None and not kwargs.get('out'):
            return maf(*inputs)
        if method == '__call__':
            # e.g. rint: apply on the data and keep the mask
            masks = [np.ma.getmaskarray(i) for i in inputs if isinstance(i, np.ma.MaskedArray)]
            out = kwargs.get('out')
            out = out[0] if isinstance(out, tuple) else out
            res = dispatch_ufunc(ufunc, method, [np.ma.getdata(i) for i in inputs], {})
            m = np.logical_or.reduce(masks)
            if out is not None:
                out[...] = np.ma.array(res, mask=m)
                return out
            return np.ma.array(res, mask=m)
        return NotImplemented
    out = kwargs.pop('out', None)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    where = kwargs.pop('where', True)
    dtype = kwargs.pop('dtype', None)
    for k in ('casting', 'order', 'subok', 'signature', 'extobj', 'sig'):
        kwargs.pop(k, None)
    if method == '__call__':
        res = _call(ufunc, inputs, where, out)
        if dtype is not None and not isinstance(res, tuple):
            res = res.astype(dtype) if hasattr(res, 'astype') else res
    elif method == 'reduce':
        res = _reduce(ufunc, inputs, kwargs, where)
    elif method == 'accumulate':
        res = _accumulate(ufunc, *inputs, **kwargs)
    elif method == 'outer':
        a, b = _objarray(inputs[0]), _objarray(inputs[1])
        a = a.reshape(a.shape + (1,) * b.ndim)
        res = _call(ufunc, (a, b), True, None)
    elif method == 'at':
        target, idx = inputs[0], _index(inputs[1])
        f = scalar_fn(ufunc)
        rest = inputs[2] if len(inputs) > 2 else None
        idx_arr = np.arange(target.size).reshape(target.shape)[idx]
        flat = target.reshape(-1) if target.flags.c_contiguous else None
        if flat is None:
            raise Unsupported('ufunc.at on a non-contiguous array')
        vals = np.broadcast_to(_objarray(rest), np.shape(idx_arr)) if rest is not None else None
        for n, p in enumerate(np.ravel(idx_arr)):
            args = (flat[int(p)],) if vals is None else (flat[int(p)], vals.reshape(-1)[n])
            flat[int(p)] = f(*args)
        return None
    else:
        raise Unsupported('ufunc method {}'.format(method))
    if out is not None:
        if out is not res:
            out[...] = res
        return out
    return res


def _call(ufunc, inputs, where, out):
    name = ufunc.__name__
    if name in ('matmul',):
        a, b = [_objarray(i) for i in inputs]
        r = np.dot(a, b)
        return _wrap_result(r)
    if name == 'divmod':
        return _call(np.floor_divide, inputs, where, None), _call(np.remainder, inputs, where, None)
    if name == 'modf':
        ip = _call(np.trunc, inputs, where, None)
        return _call(np.subtract, (inputs[0], ip), where, None), ip
    if ufunc.nout != 1:
        raise Unsupported('ufunc {}'.format(name))
    objs = [_objarray(i) for i in inputs]
    scalar = all(o.ndim == 0 for o in objs) and not any(type(i) is SymArray and False for i in inputs)
    b = np.broadcast_arrays(*objs) if len(objs) > 1 else objs
    shape = b[0].shape
    res = np.empty(shape, dtype=object)
    f = scalar_fn(ufunc)
    if where is not True:
        w = np.broadcast_to(force_bool(where), shape)
        base = np.broadcast_to(_objarray(out), shape) if out is not None else None
    it = [x.flat for x in b]
    if shape == ():
        res[()] = f(*[x[()] for x in b])
    else:
        rf = res.reshape(-1)
        cols = [list(x) for x in it]
        for i in range(rf.size):
            if where is not True and not w.reshape(-1)[i]:
                rf[i] = base.reshape(-1)[i] if base is not None else 0.0
                continue
            rf[i] = f(*[c[i] for c in cols])
    return _finish(res, _result_kind(name, res), scalar)


def _norm_axes(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if not isinstance(axis, tuple):
        axis = (axis,)
    return tuple(sorted(int(a) % ndim for a in axis))


def _reduce(ufunc, inputs, kwargs, where):
    name = ufunc.__name__
    a = _objarray(inputs[0])
    axis = inputs[1] if len(inputs) > 1 else kwargs.get('axis', 0)
    keepdims = kwargs.get('keepdims', False)
    initial = kwargs.get('initial', np._NoValue)
    if a.ndim == 0:
        axes = ()
    else:
        axes = _norm_axes(axis, a.ndim)
    f = scalar_fn(ufunc)
    keep = [i for i in range(a.ndim) if i not in axes]
    moved = a.transpose(keep + list(axes)) if a.ndim else a
    out_shape = tuple(a.shape[i] for i in keep)
    n = int(np.prod([a.shape[i] for i in axes], dtype=int)) if axes else 1
    flat = np.ascontiguousarray(moved).reshape(out_shape + (n,))
    if where is not True:
        w = np.broadcast_to(force_bool(where), a.shape).transpose(keep + list(axes)).reshape(out_shape + (n,))
    res = np.empty(out_shape, dtype=object)
    for idx in np.ndindex(*out_shape):
        vals = list(flat[idx])
        if where is not True:
            vals = [v for v, k in zip(vals, w[idx]) if k]
        if name in ('logical_and', 'logical_or'):
            r = (sym_and if name == 'logical_and' else sym_or)(*[_truth(v) for v in vals])
        elif name == 'add' and initial is np._NoValue:
            r = _sum(vals, f)
        else:
            if initial is not np._NoValue and initial is not None:
                r = initial
            elif vals:
                r = vals[0]
                vals = vals[1:]
            elif name in IDENTITY:
                r = IDENTITY[name]
            else:
                raise ValueError('zero-size array to reduction operation {} which has no identity'.format(name))
            for v in vals:
                r = f(r, v)
        res[idx] = r
    kind = 'b' if name in BOOL_OUT else _result_kind(name, res)
    scalar = not keep
    if keepdims:
        shape = tuple(1 if i in axes else a.shape[i] for i in range(a.ndim))
        res = res.reshape(shape)
        scalar = False
    if scalar and kind == 'b':
        v = res[()]
        return v if isinstance(v, SymBool) else np.bool_(v)
    return _finish(res, kind, scalar)


def _sum(vals, f):
    if not vals:
        return 0.0
    if all(isinstance(v, (SymBool, bool, np.bool_)) for v in vals):
        vals = [v.num() if isinstance(v, SymBool) else int(v) for v in vals]
    r = vals[0]
    for v in vals[1:]:
        r = f(r, v)
    return r


def _accumulate(ufunc, array, axis=0, **kw):
    a = _objarray(array)
    f = scalar_fn(ufunc)
    out = a.copy()
    axis = axis % a.ndim
    o = np.moveaxis(out, axis, 0)
    for i in range(o.shape[0]):
        for idx in np.ndindex(*o.shape[1:]):
            v = o[(i,) + idx]
            v = _num(v) if isinstance(v, SymBool) else v
            o[(i,) + idx] = v if i == 0 else f(o[(i - 1,) + idx], v)
    return _finish(out, _result_kind(ufunc.__name__, out), False)


# ---------------------------------------------------------------------------------------------------------------------
# Array functions needing more than numpy's implementation

def _count(a, axis):
    if axis is None:
        return a.size
    return int(np.prod([a.shape[i] for i in _norm_axes(axis, a.ndim)], dtype=int))


def _mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if keepdims is np._NoValue:
        keepdims = False
    if isinstance(a, np.ma.MaskedArray):
        return a.mean(axis=axis)
    a = as_sym(a)
    n = _count(a, axis)
    s = np.add.reduce(a, axis=axis, keepdims=keepdims)
    if n == 0:
        return s * float('nan')
    return s / float(n)


def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    if keepdims is np._NoValue:
        keepdims = False
    a = as_sym(a)
    m = _mean(a, axis=axis, keepdims=True) if axis is not None else _mean(a)
    d = a - m
    s = np.add.reduce(d * d, axis=axis, keepdims=keepdims)
    n = _count(a, axis) - ddof
    with np.errstate(all='ignore'):
        return s / float(n) if n > 0 else s * float('nan')


def as_sym(a):
    if isinstance(a, SymArray):
        return a
    return SymArray(a)


def _where(cond, x=None, y=None):
    if x is None and y is None:
        c = cond if isinstance(cond, SymArray) else as_sym(cond)
        return c.nonzero()
    c, x, y = np.broadcast_arrays(_objarray(cond), _objarray(x), _objarray(y))
    out = np.empty(c.shape, dtype=object)
    it = zip(c.flat, x.flat, y.flat)
    vals = [sym_ite(_truth(ci), xi, yi) for ci, xi, yi in it]
    if out.ndim == 0:
        out[()] = vals[0]
    else:
        o = out.reshape(-1)
        for i, v in enumerate(vals):
            o[i] = v
    return out.view(SymArray)


def _median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    a = _objarray(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    s = np.sort(a, axis=axis)
    s = np.moveaxis(s, axis, 0)
    n = s.shape[0]
    if n % 2:
        r = s[n // 2]
    else:
        r = (s[n // 2 - 1] + s[n // 2]) / 2.0
    if isinstance(r, np.ndarray):
        r = r.view(SymArray)
        if keepdims:
            r = np.expand_dims(r, axis)
    return r


def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = as_sym(a), as_sym(b)
    return abs(a - b) <= abs(b) * rtol + atol


def _percentile_like(scale):
    def f(a, q, axis=None, out=None, overwrite_input=False, interpolation='linear', keepdims=False, **kw):
        if interpolation != 'linear':
            raise Unsupported('percentile interpolation')
        a = _objarray(a)
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        s = np.moveaxis(np.sort(a, axis=axis), axis, 0)
        n = s.shape[0]

        def one(qq):
            pos = float(qq) / scale * (n - 1)
            lo = int(math.floor(pos))
            hi = min(lo + 1, n - 1)
            frac = pos - lo
            return s[lo] + (s[hi] - s[lo]) * frac

        if np.ndim(q) == 0:
            r = one(q)
            return r.view(SymArray) if isinstance(r, np.ndarray) else r
        return SymArray(np.array([one(i) for i in q], dtype=object))

    return f


def _around(a, decimals=0, out=None):
    return as_sym(a).round(decimals)


def _array_equal(a1, a2, equal_nan=False):
    a1, a2 = as_sym(a1), as_sym(a2)
    if a1.shape != a2.shape:
        return False
    return bool(np.logical_and.reduce(np.equal(a1, a2).reshape(-1))) if a1.size else True


def _nan_reduce(name):
    def f(a, axis=None, **kw):
        a = as_sym(a)
        return getattr(a, name)(axis=axis)

    return f


def _diff(a, n=1, axis=-1, **kw):
    a = as_sym(a)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis] = slice(1, None)
        s2[axis] = slice(None, -1)
        if a.kind == 'b' or (a.size and infer_kind(a.view(np.ndarray).flat) == 'b'):
            # Differences of truth values are their inequality.
            a = rebuild(np.asarray(a[tuple(s1)] != a[tuple(s2)]), 'b')
        else:
            a = a[tuple(s1)] - a[tuple(s2)]
    return a


def _sortlike(a, axis=-1, kind=None, order=None):
    r = np.sort(_objarray(a), axis=axis)
    return r.view(SymArray)


def _full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None):
    out = SymArray(np.empty(np.shape(a) if shape is None else shape, dtype=object))
    k = np.dtype(dtype).kind if dtype is not None else as_sym(a).kind
    if k in 'ib' and not is_sym(fill_value):
        return np.full(out.shape, fill_value, dtype=dtype or KIND_DTYPE[k])
    out._kind = k
    out[...] = fill_value
    return out


def _like(value):
    def f(a, dtype=None, order='K', subok=True, shape=None):
        return _full_like(a, value, dtype=dtype, shape=shape)

    return f


def _count_nonzero(a, axis=None, keepdims=False):
    a = as_sym(a)
    if a.kind != 'b':
        a = SymArray(np.array([_truth(v) for v in a.flat] + [None], dtype=object)[:-1].reshape(a.shape))
    vals = np.empty(a.shape, dtype=object)
    vf = vals.reshape(-1)
    for i, v in enumerate(a.view(np.ndarray).flat):
        vf[i] = v.num() if isinstance(v, SymBool) else int(v)
    return np.add.reduce(vals.view(SymArray), axis=axis)


def _interp(x, xp, fp, left=None, right=None, period=None):
    raise Unsupported('interp')


def _cumsum(a, axis=None, dtype=None, out=None):
    a = as_sym(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    return _accumulate(np.add, a, axis)


def _argext(better):
    def f(a, axis=None, out=None, **kw):
        if isinstance(a, np.ma.MaskedArray):
            raise Unsupported('masked argmin')
        a = _objarray(a)
        if axis is None:
            a, axis = a.reshape(-1), 0
        m = np.moveaxis(a, axis, -1)
        res = np.empty(m.shape[:-1], dtype=int)
        for idx in np.ndindex(*m.shape[:-1]):
            row = m[idx]
            best = 0
            for i in range(1, row.shape[0]):
                if bool(better(row[i], row[best])):
                    best = i
            res[idx] = best
        return res[()] if res.ndim == 0 else res

    return f


FUNCTIONS = {
    np.mean: _mean, np.var: _var, np.where: _where, np.median: _median, np.isclose: _isclose,
    np.std: lambda a, axis=None, dtype=None, out=None, ddof=0, **k: np.sqrt(_var(a, axis=axis, ddof=ddof)),
    np.percentile: _percentile_like(100.), np.quantile: _percentile_like(1.), np.around: _around,
    np.round_: _around, np.array_equal: _array_equal, np.diff: _diff, np.sort: _sortlike,
    np.full_like: _full_like, np.zeros_like: _like(0), np.ones_like: _like(1), np.empty_like: _like(0),
    np.count_nonzero: _count_nonzero, np.interp: _interp, np.cumsum: _cumsum,
    np.argmin: _argext(lambda a, b: a < b), np.argmax: _argext(lambda a, b: a > b),
    np.any: lambda a, axis=None, out=None, keepdims=False, **k: as_sym(a).any(
        axis=axis, keepdims=False if keepdims is np._NoValue else keepdims),
    np.all: lambda a, axis=None, out=None, keepdims=False, **k: as_sym(a).all(
        axis=axis, keepdims=False if keepdims is np._NoValue else keepdims),
    np.nanmean: _nan_reduce('mean'), np.nansum: _nan_reduce('sum'), np.nanmin: _nan_reduce('min'),
    np.nanmax: _nan_reduce('max'), np.nonzero: lambda a: as_sym(a).nonzero(),
    np.clip: lambda a, a_min, a_max, out=None, **k: as_sym(a).clip(a_min, a_max),
    np.allclose: lambda a, b, **k: bool(np.all(_isclose(a, b, **{i: j for i, j in k.items() if i in ('rtol', 'atol')}))),
    np.array_equiv: _array_equal,
}


# ---------------------------------------------------------------------------------------------------------------------
# The numpy stand-in installed into ocgis modules

def _contains_sym(data, depth=0):
    if is_sym(data):
        return True
    if isinstance(data, SymArray):
        return True
    if isinstance(data, np.ma.MaskedArray):
        return _REAL_DTYPE(data) == object and isinstance(np.ma.getdata(data), SymArray)
    if isinstance(data, np.ndarray):
        return _REAL_DTYPE(data) == object and data.size < 100000 and has_sym(data)
    if isinstance(data, (list, tuple)) and depth < 6:
        return any(_contains_sym(i, depth + 1) for i in data)
    return False


INT_SYM = False  # When true, integer allocations also get symbolic storage.


def set_int_sym(flag):
    global INT_SYM
    INT_SYM = flag


def _is_float_dtype(dtype):
    if dtype is None:
        return True
    try:
        dt = np.dtype(dtype)
    except TypeError:
        return False
    if dt.kind == 'f':
        return True
    if INT_SYM and dt.kind in 'iu':
        return True
    return False


def _kindof(dtype):
    if dtype is None:
        return 'f'
    k = np.dtype(dtype).kind
    return 'i' if k == 'u' else k


def _shape(shape):
    if isinstance(shape, (list, tuple, np.ndarray)):
        return tuple(s.__index__() for s in shape)
    return shape.__index__()


def _alloc(value):
    def f(shape, dtype=None, order='C', **kw):
        shape = _shape(shape)
        if not E.active() or not _is_float_dtype(dtype):
            return np.full(shape, value, dtype=dtype if dtype is not None else float) if value else \
                np.zeros(shape, dtype=dtype if dtype is not None else float)
        out = np.empty(shape, dtype=object)
        out[...] = float(value) if _kindof(dtype) == 'f' else value
        return rebuild(out, _kindof(dtype))

    return f


def _full(shape, fill_value, dtype=None, order='C', **kw):
    shape = _shape(shape)
    if E.active() and (is_sym(fill_value) or (_is_float_dtype(dtype) and not isinstance(fill_value, (int, bool)))):
        out = SymArray(np.empty(shape, dtype=object), kind=_kindof(dtype) if dtype is not None else scalar_kind(fill_value))
        out[...] = fill_value
        return out
    return np.full(shape, fill_value, dtype=dtype)


def _array(data, dtype=None, copy=True, order='K', subok=False, ndmin=0, **kw):
    if E.active() and _contains_sym(data):
        if isinstance(data, np.ma.MaskedArray):
            if subok:
                return _ma_array(data, dtype=dtype)
            data = data.data
        a = _objarray(_deobj(data))
        if copy and (a is data or isinstance(data, np.ndarray)):
            a = a.copy()
        r = a.view(SymArray)
        if isinstance(data, SymArray) and dtype is None:
            r._kind = data._kind
        else:
            r._kind = None
        if dtype is not None:
            dt = np.dtype(dtype)
            if dt != object:
                r = r.astype(dt)
        while r.ndim < ndmin:
            r = r[np.newaxis]
        return r
    return np.array(data, dtype=dtype, copy=copy, order=order, subok=subok, ndmin=ndmin, **kw)


def _deobj(data):
    """Nested sequences of scalars and arrays -> nested lists with no arrays inside."""
    if isinstance(data, (list, tuple)):
        return [_deobj(i) for i in data]
    if isinstance(data, np.ma.MaskedArray):
        return data.data.tolist()
    return data if isinstance(data, np.ndarray) and data.ndim else (data.item() if isinstance(data, np.ndarray) else data)


def _asarray(data, dtype=None, order=None, **kw):
    if E.active() and _contains_sym(data):
        if isinstance(data, SymArray) and (dtype is None or np.dtype(dtype).kind == data.dtype.kind):
            return data
        return _array(data, dtype=dtype, copy=False)
    return np.asarray(data, dtype=dtype, order=order)


def _asanyarray(data, dtype=None, order=None, **kw):
    if isinstance(data, np.ma.MaskedArray):
        return data
    if E.active() and _contains_sym(data):
        return _asarray(data, dtype)
    return np.asanyarray(data, dtype=dtype, order=order)


def _arange(*args, **kw):
    if any(is_sym(a) for a in args):
        start, stop, step = (0, args[0], 1) if len(args) == 1 else args + (1,) if len(args) == 2 else args
        n = (stop - start) / step
        n = n.__ceil__() if is_sym(n) else math.ceil(n)
        n = builtins.max(int(n), 0)
        r = SymArray(np.array([start + i * step for i in range(n)] + [None], dtype=object)[:-1])
        r._kind = 'i' if all(scalar_kind(v) == 'i' for v in (start, stop, step)) else 'f'
        return r
    return np.arange(*args, **kw)


def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if is_sym(start) or is_sym(stop):
        num = int(num)
        div = (num - 1) if endpoint else num
        step = (stop - start) / float(div) if div else float('nan')
        r = SymArray([start + step * i for i in range(num)])
        return (r, step) if retstep else r
    return np.linspace(start, stop, num=num, endpoint=endpoint, retstep=retstep, dtype=dtype, axis=axis)


def _ma_array(data, dtype=None, **kw):
    if E.active() and _contains_sym(data):
        mask = kw.get('mask', np.ma.nomask)
        if mask is not np.ma.nomask and _contains_sym(mask):
            kw['mask'] = force_bool(mask)
        if isinstance(data, np.ma.MaskedArray):
            src = data
            data = np.ma.getdata(src)
            if not isinstance(data, SymArray):
                data = data.view(SymArray)
            if kw.get('mask', np.ma.nomask) is np.ma.nomask:
                kw['mask'] = np.ma.getmask(src).copy() if np.ma.getmask(src) is not np.ma.nomask else np.ma.nomask
        data = _array(data, dtype=dtype, copy=kw.pop('copy', False))
        kw.pop('fill_value', None)
        return np.ma.array(data, **kw)
    return np.ma.array(data, dtype=dtype, **kw)


def _ma_alloc(value):
    base = _alloc(value)

    def f(shape, dtype=None, **kw):
        a = base(shape, dtype=dtype)
        return np.ma.array(a)

    return f


def _scalar_type(real, dtype):
    """np.float64(x), np.int32(x) ... applied to symbolic values."""

    class Meta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, real)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, real)

    return real


def _pyscalar(name):
    """ufuncs applied to symbolic scalars directly are redirected by __array_ufunc__ already."""
    return getattr(np, name)


def _has(*args):
    return E.active() and any(_contains_sym(a) for a in args)


def _shim(name):
    """A numpy function that redirects to the FUNCTIONS table if any positional argument is symbolic (lists included)."""
    real = getattr(np, name)
    handler = FUNCTIONS.get(real)

    def f(*args, **kwargs):
        if _has(*args) and not any(isinstance(a, np.ma.MaskedArray) for a in args):
            if handler is not None:
                return handler(*args, **kwargs)
        return real(*args, **kwargs)

    f.__name__ = name
    return f


def _ma_wrap(name):
    """numpy.ma functions: make sure list arguments with symbolic content become SymArrays first."""
    real = getattr(np.ma, name)

    def f(*args, **kwargs):
        if E.active():
            args = [_array(a) if isinstance(a, (list, tuple)) and _contains_sym(a) else a for a in args]
        return real(*args, **kwargs)

    return f


def _ma_median(a, axis=None, **kw):
    if not _has(a):
        return np.ma.median(a, axis=axis, **kw)
    return _ma_apply(a, axis, lambda vals: _median(SymArray(vals)))


def _ma_apply(a, axis, fn):
    a = a if isinstance(a, np.ma.MaskedArray) else np.ma.array(a)
    data, mask = _objarray(a.data), np.ma.getmaskarray(a)
    if axis is None:
        data, mask, axis = data.reshape(-1), mask.reshape(-1), 0
    d, m = np.moveaxis(data, axis, -1), np.moveaxis(mask, axis, -1)
    res = np.empty(d.shape[:-1], dtype=object)
    rm = np.zeros(d.shape[:-1], dtype=bool)
    for idx in np.ndindex(*d.shape[:-1]):
        vals = [v for v, k in zip(d[idx], m[idx]) if not k]
        if vals:
            res[idx] = fn(vals)
        else:
            res[idx] = 0.0
            rm[idx] = True
    if res.ndim == 0:
        return np.ma.masked if rm[()] else res[()]
    return np.ma.array(res.view(SymArray), mask=rm)


def _ma_mean(a, axis=None, **kw):
    if not _has(a):
        return np.ma.mean(a, axis=axis, **kw)
    return _ma_apply(a, axis, lambda vals: _mean(SymArray(vals)))


def _ma_var(a, axis=None, ddof=0, **kw):
    if not _has(a):
        return np.ma.var(a, axis=axis, ddof=ddof, **kw)
    return _ma_apply(a, axis, lambda vals: _var(SymArray(vals), ddof=ddof))


def _ma_std(a, axis=None, ddof=0, **kw):
    if not _has(a):
        return np.ma.std(a, axis=axis, ddof=ddof, **kw)
    return _ma_apply(a, axis, lambda vals: np.sqrt(_var(SymArray(vals), ddof=ddof)))


def _ma_reduce(name, fold):
    real = getattr(np.ma, name)

    def f(a, axis=None, **kw):
        if not _has(a):
            return real(a, axis=axis, **kw)

        def red(vals):
            r = vals[0]
            for v in vals[1:]:
                r = fold(r, v)
            return r.num() if name == 'sum' and isinstance(r, SymBool) else r

        return _ma_apply(a, axis, red)

    return f


def _atleast(n):
    real = getattr(np, 'atleast_{}d'.format(n))

    def f(*arys):
        if _has(*arys):
            arys = [_asanyarray(a) for a in arys]
        return real(*arys)

    return f


def _stack(name):
    real = getattr(np, name)

    def f(arrays, *args, **kw):
        if _has(*arrays):
            arrays = [_asanyarray(a) for a in arrays]
            return _wrap_result(real(arrays, *args, **kw))
        return real(arrays, *args, **kw)

    return f


_MA_DTYPE = np.ma.MaskedArray.__dict__['dtype']


def _masked_dtype(self):
    real = _MA_DTYPE.__get__(self, type(self))
    if real == object and issubclass(self._baseclass, SymArray):
        return np.ma.getdata(self).dtype
    return real


# Masked arrays of symbolic elements have the data type they would have in a concrete run.
MASKED_DTYPE = property(_masked_dtype, _MA_DTYPE.__set__)


class _Proxy(object):
    def __init__(self, base, overrides):
        self.__dict__['_base'] = base
        self.__dict__.update(overrides)

    def __getattr__(self, item):
        return getattr(self._base, item)


def _ma_convolve(a, v, mode='full', propagate_mask=True):
    if not _has(np.ma.getdata(a), np.ma.getdata(v)):
        return np.ma.convolve(a, v, mode=mode, propagate_mask=propagate_mask)
    if not propagate_mask:
        raise Unsupported('convolution without mask propagation')
    am, vm = np.ma.getmaskarray(a), np.ma.getmaskarray(v)
    mask = np.convolve(am, np.ones(vm.shape, dtype=bool), mode=mode) | np.convolve(np.ones(am.shape, dtype=bool), vm, mode=mode)
    return np.ma.array(_OVR['convolve'](as_sym(np.ma.getdata(a)), as_sym(np.ma.getdata(v)), mode=mode), mask=mask)


MaShim = _Proxy(np.ma, dict(
    convolve=_ma_convolve,
    array=_ma_array, masked_array=_ma_array, zeros=_ma_alloc(0), ones=_ma_alloc(1), empty=_ma_alloc(0),
    median=_ma_median, mean=_ma_mean, var=_ma_var, std=_ma_std, sum=_ma_reduce('sum', lambda a, b: _num(a) + _num(b)),
    min=_ma_reduce('min', sym_min), max=_ma_reduce('max', sym_max)))

_OVR = dict(zeros=_alloc(0), ones=_alloc(1), empty=_alloc(0), full=_full, array=_array, asarray=_asarray,
            asanyarray=_asanyarray, arange=_arange, linspace=_linspace, ma=MaShim, atleast_1d=_atleast(1),
            atleast_2d=_atleast(2), atleast_3d=_atleast(3), ascontiguousarray=_asarray)
for _n in ('mean', 'var', 'std', 'where', 'median', 'isclose', 'percentile', 'quantile', 'around', 'array_equal',
           'diff', 'sort', 'count_nonzero', 'any', 'all', 'clip', 'allclose', 'cumsum', 'interp', 'argmin', 'argmax',
           'nonzero'):
    _OVR[_n] = _shim(_n)
_OVR['round'] = _shim('around')
for _n in ('concatenate', 'hstack', 'vstack', 'dstack', 'stack'):
    _OVR[_n] = _stack(_n)


def _listy(name):
    real = getattr(np, name)

    def f(*args, **kw):
        if E.active():
            args = tuple(_array(a) if isinstance(a, (list, tuple)) and _contains_sym(a) else a for a in args)
        r = real(*args, **kw)
        return _wrap_result(r) if E.active() else r

    f.__name__ = name
    return f


for _n in ('sum', 'min', 'max', 'amin', 'amax', 'prod', 'unique', 'searchsorted', 'argsort', 'repeat', 'tile', 'roll',
           'flip', 'fliplr', 'flipud', 'abs', 'meshgrid', 'broadcast_arrays', 'broadcast_to', 'ravel', 'append',
           'insert', 'delete', 'dot', 'squeeze', 'expand_dims', 'swapaxes', 'transpose', 'setdiff1d', 'intersect1d',
           'union1d', 'in1d', 'isin', 'average', 'convolve', 'digitize', 'cumprod'):
    _OVR[_n] = _listy(_n)


def _transcendental(name):
    real = getattr(np, name)

    def f(x, *args, **kw):
        if E.active() and isinstance(x, np.ndarray) and _REAL_DTYPE(x).hasobject:
            # Object loops look up methods that plain floats do not have.
            data = np.ma.getdata(x)
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                v = np.asarray(data, dtype=object)[i]
                out[i] = getattr(v, name)() if is_sym(v) else float(real(float(v)))
            out = out.view(SymArray)
            return np.ma.array(out, mask=np.ma.getmask(x).copy()) if isinstance(x, np.ma.MaskedArray) else out
        return real(x, *args, **kw)

    f.__name__ = name
    return f


for _n in ('exp', 'log'):
    _OVR[_n] = _transcendental(_n)


def _np_average(a, axis=None, weights=None, returned=False):
    if not _has(a, weights):
        return np.average(a, axis=axis, weights=weights, returned=returned)
    if returned:
        raise Unsupported('average returned')
    if weights is None:
        return _mean(a, axis=axis)
    a, w = as_sym(a), as_sym(weights)
    if a.shape != w.shape:
        if axis is None or w.ndim != 1:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        sh = [1] * a.ndim
        sh[axis] = w.shape[0]
        w = np.broadcast_to(w.view(np.ndarray).reshape(sh), a.shape).view(SymArray)
    return np.add.reduce(a * w, axis=axis) / np.add.reduce(w, axis=axis)


def _ma_average(a, axis=None, weights=None, returned=False):
    if not _has(a, weights):
        return np.ma.average(a, axis=axis, weights=weights, returned=returned)
    a = np.ma.asarray(a) if not isinstance(a, np.ma.MaskedArray) else a
    data, mask = _objarray(a.data), np.ma.getmaskarray(a)
    w = _objarray(np.ma.getdata(weights)) if weights is not None else np.ones(data.shape, dtype=object)
    if weights is not None and isinstance(weights, np.ma.MaskedArray):
        mask = mask | np.ma.getmaskarray(weights)
    w = np.broadcast_to(w, data.shape)
    pair = np.empty(data.shape, dtype=object)
    for idx in np.ndindex(*data.shape):
        pair[idx] = (data[idx], w[idx])

    def fn(vals):
        num = den = 0.0
        for v, k in vals:
            num = num + v * k
            den = den + k
        return num / den

    if axis is None:
        ax_data = pair.reshape(-1)
        vals = [v for v, k in zip(ax_data, mask.reshape(-1)) if not k]
        return fn(vals) if vals else np.ma.masked
    return _ma_apply(np.ma.array(pair, mask=mask), axis, fn)


_OVR['average'] = _np_average
MaShim.__dict__['average'] = _ma_average


def _astype_scalar(real):
    def f(x=0, *args, **kw):
        if is_sym(x):
            return cast_scalar(x, np.dtype(real))
        if isinstance(x, SymArray):
            return x.astype(real)
        return real(x, *args, **kw)

    return f


NpShim = _Proxy(np, _OVR)
