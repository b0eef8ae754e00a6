"""Path-exploring symbolic execution engine.

A harness is an ordinary Python function ``h(S, **params)``.  It asks ``S`` for inputs, runs the real ocgis code on them
and states the property with ``S.check``.  In symbolic mode the inputs are proxies holding Z3 terms; every time the code
under test needs the truth value of a symbolic condition the solver decides which outcomes are feasible and the path is
forked (by re-execution).  Every ``S.check`` asks the solver whether *any* input on the current path falsifies it.  When
all paths are exhausted the property holds for every value within the stated bounds.

In concrete mode the same harness runs on ordinary ints, floats and numpy arrays: this is how counterexamples are
replayed on the untouched code and how the symbolic semantics are validated path by path.
"""
import math
import numbers
import time
import traceback
from fractions import Fraction

import numpy as np

from .z3load import z3

_CTX = z3.main_ctx()


class PathAbort(BaseException):
    """The current path is infeasible or was cut by an assumption."""


class Unsupported(BaseException):
    """The engine cannot represent an operation."""


class CheckFailed(BaseException):
    """A check failed in concrete mode."""

    def __init__(self, label, detail=''):
        self.label = label
        self.detail = detail
        super(CheckFailed, self).__init__('{} {}'.format(label, detail))


class NonDeterminism(BaseException):
    """Re-execution of a path prefix took a different course."""


class Budget(BaseException):
    """Time or path budget exhausted."""


CUR = None  # The engine currently executing symbolically (one per process).


def active():
    return CUR is not None


def _to_z3num(v):
    """Return a z3 arithmetic term for a finite Python/numpy number or symbolic number."""
    if isinstance(v, SymNum):
        return v.e
    if isinstance(v, SymBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, (bool, np.bool_)):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, (int, np.integer)):
        return z3.IntVal(int(v))
    if isinstance(v, (float, np.floating)):
        v = float(v)
        f = Fraction(v)
        return z3.RealVal('{}/{}'.format(f.numerator, f.denominator))
    if isinstance(v, Fraction):
        return z3.RealVal('{}/{}'.format(v.numerator, v.denominator))
    return None


def is_sym(v):
    return isinstance(v, (SymNum, SymBool))


def _is_nonfinite(v):
    return isinstance(v, (float, np.floating)) and not math.isfinite(v)


def _unwrap_0d(v):
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return v.item() if v.dtype != object else v[()]
    return v


def mkbool(e):
    """Wrap a z3 bool, collapsing constants."""
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def _simp(e):
    return z3.simplify(e)


class SymBool(object):
    __slots__ = ('e',)
    __array_priority__ = 1000.

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return _engine().branch(self.e)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return sym_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return sym_or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(_simp(z3.Xor(to_z3bool(self), to_z3bool(o))))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    logical_not = __invert__

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, numbers.Number) or isinstance(o, SymNum):
            return self.num() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def num(self):
        return SymNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self.num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __mul__(self, o):
        return self.num() * o

    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'SymBool({})'.format(self.e)

    def item(self):
        return self

    def any(self, *a, **k):
        return self

    all = any

    def __reduce__(self):
        return _unpickle, (_pickle(self),)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from .arrays import dispatch_ufunc
        return dispatch_ufunc(ufunc, method, inputs, kwargs)


_PICKLED = {}


def _pickle(v):
    _PICKLED[id(v)] = v
    return id(v)


def _unpickle(key):
    return _PICKLED[key]


def to_z3bool(v):
    if isinstance(v, SymBool):
        return v.e
    if isinstance(v, SymNum):
        return v.e != 0
    return z3.BoolVal(bool(v))


def sym_and(*vs):
    out = []
    for v in vs:
        if isinstance(v, SymNum):
            v = v != 0
        if isinstance(v, SymBool):
            out.append(v.e)
        elif not v:
            return False
    if not out:
        return True
    return mkbool(out[0] if len(out) == 1 else z3.And(*out))


def sym_or(*vs):
    out = []
    for v in vs:
        if isinstance(v, SymNum):
            v = v != 0
        if isinstance(v, SymBool):
            out.append(v.e)
        elif v:
            return True
    if not out:
        return False
    return mkbool(out[0] if len(out) == 1 else z3.Or(*out))


def sym_not(v):
    if isinstance(v, SymBool):
        return ~v
    return not v


def sym_implies(a, b):
    return sym_or(sym_not(a), b)


def sym_iff(a, b):
    if is_sym(a) or is_sym(b):
        return mkbool(_simp(to_z3bool(a) == to_z3bool(b)))
    return bool(a) == bool(b)


def sym_ite(c, a, b):
    """Value-level if-then-else without forking (numbers and booleans)."""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return mkbool(_simp(z3.If(c.e, to_z3bool(a), to_z3bool(b))))
    za, zb = _to_z3num(a) if not _is_nonfinite(a) else None, _to_z3num(b) if not _is_nonfinite(b) else None
    if za is None or zb is None:
        return a if bool(c) else b
    za, zb = _match(za, zb)
    return SymNum(_simp(z3.If(c.e, za, zb)))


def sym_max(a, b):
    if is_sym(a) or is_sym(b):
        if _is_nan(a):
            return a
        if _is_nan(b):
            return b
        return sym_ite(a >= b, a, b)
    return max(a, b)


def sym_min(a, b):
    if is_sym(a) or is_sym(b):
        if _is_nan(a):
            return a
        if _is_nan(b):
            return b
        return sym_ite(a <= b, a, b)
    return min(a, b)


def _is_nan(v):
    return isinstance(v, (float, np.floating)) and math.isnan(v)


def _match(a, b):
    if a.is_int() and not b.is_int():
        a = z3.ToReal(a)
    elif b.is_int() and not a.is_int():
        b = z3.ToReal(b)
    return a, b


def _engine():
    if CUR is None:
        raise RuntimeError('symbolic value used outside of a symbolic run')
    return CUR


def mknum(e):
    """Wrap an arithmetic term; literals become plain Python numbers."""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        v = float(f)
        if Fraction(v) == f:
            return v
    return SymNum(e)


def _binary(op, reverse=False):
    def method(self, o):
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                o = _unwrap_0d(o)
            else:
                return NotImplemented
        if _is_nonfinite(o):
            return _nonfinite_arith(op, self, o, reverse)
        zo = _to_z3num(o)
        if zo is None:
            return NotImplemented
        a, b = (zo, self.e) if reverse else (self.e, zo)
        return _arith(op, a, b)

    return method


def _nonfinite_arith(op, s, o, reverse):
    if math.isnan(o):
        return o
    if op == 'add':
        return o
    if op == 'sub':
        return o if reverse else -o
    if op == 'mul':
        if s > 0:
            return o
        elif s < 0:
            return -o
        return float('nan')
    if op == 'truediv':
        if not reverse:
            return 0.0
        if s >= 0:
            return o
        return -o
    raise Unsupported('non-finite {}'.format(op))


def _arith(op, a, b):
    if op in ('add', 'sub', 'mul'):
        a, b = _match(a, b)
        if op == 'add':
            e = a + b
        elif op == 'sub':
            e = a - b
        else:
            e = a * b
        return mknum(_simp(e))
    if op == 'truediv':
        a = z3.ToReal(a) if a.is_int() else a
        b = z3.ToReal(b) if b.is_int() else b
        bz = mkbool(_simp(b == 0))
        if bz is True or (bz is not False and bool(bz)):
            return _div_by_zero(a)
        return mknum(_simp(a / b))
    if op in ('floordiv', 'mod'):
        a, b = _match(a, b)
        bz = mkbool(_simp(b == 0))
        if bz is True or (bz is not False and bool(bz)):
            if a.is_int():
                raise ZeroDivisionError('integer division or modulo by zero')
            return _div_by_zero(a) if op == 'floordiv' else float('nan')
        neg = mkbool(_simp(b < 0))
        if neg is True or (neg is not False and bool(neg)):
            na, nb = -a, -b
        else:
            na, nb = a, b
        if a.is_int():
            q = na / nb  # z3 integer division floors for a positive divisor
            if op == 'floordiv':
                return mknum(_simp(q))
            return mknum(_simp(a - b * q))
        q = z3.ToReal(z3.ToInt(na / nb))
        if op == 'floordiv':
            return mknum(_simp(q))
        return mknum(_simp(a - b * q))
    raise Unsupported(op)


def _div_by_zero(a):
    s = mknum(_simp(a))
    if s > 0:
        return float('inf')
    if s < 0:
        return float('-inf')
    return float('nan')


def _compare(op):
    def method(self, o):
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                o = _unwrap_0d(o)
            else:
                return NotImplemented
        if _is_nonfinite(o):
            if math.isnan(o):
                return op == 'ne'
            pos = o > 0
            return {'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos, 'eq': False, 'ne': True}[op]
        zo = _to_z3num(o)
        if zo is None:
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            return NotImplemented
        a, b = _match(self.e, zo)
        if op == 'lt':
            e = a < b
        elif op == 'le':
            e = a <= b
        elif op == 'gt':
            e = a > b
        elif op == 'ge':
            e = a >= b
        elif op == 'eq':
            e = a == b
        else:
            e = a != b
        return mkbool(_simp(e))

    return method


class SymNum(object):
    """A symbolic integer or real."""
    __slots__ = ('e',)
    __array_priority__ = 1000.

    def __init__(self, e):
        self.e = e

    @property
    def is_int_sort(self):
        return self.e.is_int()

    __add__ = _binary('add')
    __radd__ = _binary('add', True)
    __sub__ = _binary('sub')
    __rsub__ = _binary('sub', True)
    __mul__ = _binary('mul')
    __rmul__ = _binary('mul', True)
    __truediv__ = _binary('truediv')
    __rtruediv__ = _binary('truediv', True)
    __floordiv__ = _binary('floordiv')
    __rfloordiv__ = _binary('floordiv', True)
    __mod__ = _binary('mod')
    __rmod__ = _binary('mod', True)
    __lt__ = _compare('lt')
    __le__ = _compare('le')
    __gt__ = _compare('gt')
    __ge__ = _compare('ge')
    __eq__ = _compare('eq')
    __ne__ = _compare('ne')

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __neg__(self):
        return mknum(_simp(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(_simp(z3.If(self.e >= 0, self.e, -self.e)))

    def __pow__(self, p, mod=None):
        p = _unwrap_0d(p)
        if is_sym(p):
            if isinstance(p, SymNum) and p.is_int_sort:
                p = int(p)
            else:
                raise Unsupported('symbolic exponent')
        if float(p) == 0.5:
            return self.sqrt()
        if float(p) != int(p):
            raise Unsupported('fractional exponent')
        n = int(p)
        if n < 0:
            return 1.0 / (self ** (-n))
        r = 1
        for _ in range(n):
            r = r * self
        return r

    def __rpow__(self, base):
        if self.is_int_sort:
            return base ** int(self)
        raise Unsupported('symbolic exponent')

    def sqrt(self):
        if bool(self < 0):
            return float('nan')
        eng = _engine()
        r = eng.fresh_real('sqrt')
        eng.add_axiom(z3.And(r >= 0, r * r == (z3.ToReal(self.e) if self.e.is_int() else self.e)))
        return SymNum(r)

    def _uninterpreted(self, name):
        """A real function about which only its being a function is known."""
        f = z3.Function('fn_' + name, z3.RealSort(), z3.RealSort())
        return SymNum(f(z3.ToReal(self.e) if self.e.is_int() else self.e))

    def exp(self):
        return self._uninterpreted('exp')

    def log(self):
        return self._uninterpreted('log')

    def conjugate(self):
        return self

    ndim = 0
    shape = ()
    size = 1

    def flatten(self):
        from .arrays import SymArray
        return SymArray([self])

    ravel = flatten

    def reshape(self, *shape):
        from .arrays import SymArray
        return SymArray([self]).reshape(*shape)

    def astype(self, dtype, copy=True):
        from .arrays import cast_scalar
        return cast_scalar(self, np.dtype(dtype))

    @property
    def dtype(self):
        return np.dtype(np.int64) if self.e.is_int() else np.dtype(np.float64)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def __floor__(self):
        if self.e.is_int():
            return self
        return mknum(_simp(z3.ToInt(self.e)))

    def floor(self):
        return self.__floor__() * 1.0 if not self.e.is_int() else self

    def __ceil__(self):
        if self.e.is_int():
            return self
        return -((-self).__floor__()) if isinstance(-self, SymNum) else math.ceil(-(-self))

    def ceil(self):
        r = self.__ceil__()
        return r * 1.0 if not self.e.is_int() else r

    def __trunc__(self):
        if self.e.is_int():
            return self
        return sym_ite(self >= 0, self.__floor__(), self.__ceil__())

    def trunc(self):
        return self.__trunc__()

    def __round__(self, n=None):
        if self.e.is_int():
            return self
        if n:
            raise Unsupported('round with digits')
        return self.rint()

    def rint(self):
        """Round half to even."""
        fl = z3.ToInt(self.e)
        diff = self.e - z3.ToReal(fl)
        half = z3.RealVal('1/2')
        up = z3.If(diff > half, True, z3.If(diff < half, False, fl % 2 != 0))
        return mknum(_simp(z3.If(up, fl + 1, fl)))

    def is_integer(self):
        if self.e.is_int():
            return True
        return mkbool(_simp(z3.IsInt(self.e)))

    ndim = 0

    def view(self, *a, **k):
        return self

    def toint(self):
        return self.__trunc__()

    def toreal(self):
        return SymNum(z3.ToReal(self.e)) if self.e.is_int() else self

    def __int__(self):
        t = self.__trunc__()
        if isinstance(t, SymNum):
            return _engine().concretize_int(t.e)
        return int(t)

    def __index__(self):
        if not self.e.is_int():
            raise TypeError('symbolic real is not an index')
        return _engine().concretize_int(self.e)

    def __float__(self):
        if self.e.is_int():
            return float(_engine().concretize_int(self.e))
        return _engine().pin_real(self.e)

    def __bool__(self):
        return _engine().branch(self.e != 0)

    def __hash__(self):
        if self.e.is_int():
            return hash(_engine().concretize_int(self.e))
        return 0x5ca1ab1e

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'Sym({})'.format(self.e)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        return _unpickle, (_pickle(self),)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from .arrays import dispatch_ufunc
        return dispatch_ufunc(ufunc, method, inputs, kwargs)

    # numpy object loops look these up by name
    def _unsupported(self, *a, **k):
        raise Unsupported('transcendental function on a symbolic value')

    sin = cos = tan = arcsin = arccos = arctan = _unsupported


numbers.Real.register(SymNum)


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.decisions = 0
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0
        self.replayed = 0
        self.replay_skipped = 0
        self.pinned = 0
        self.unsupported = 0
        self.unknown = 0
        self.samples = []
        self.notes = {}
        self.reached = 0

    def as_dict(self):
        return dict(self.__dict__)


class _Dec(object):
    """One entry of the current path: a boolean fork ('b'), an integer choice ('v'), a pinned real ('p') or an
    assertion ('a')."""
    __slots__ = ('kind', 'value', 'cond', 'rest', 'pushed')

    def __init__(self, kind, value, cond=None, rest=(), pushed=False):
        self.kind = kind
        self.value = value
        self.cond = cond
        self.rest = rest
        self.pushed = pushed


class Engine(object):
    """Explores all paths of a harness."""

    def __init__(self, query_timeout_ms=20000, max_paths=10 ** 7, deadline=None, concretize_limit=300):
        self.solver = z3.Solver()
        self.query_timeout_ms = query_timeout_ms
        self.solver.set('timeout', query_timeout_ms)
        self.decs = []
        self.pos = 0
        self.stats = Stats()
        self.max_paths = max_paths
        self.deadline = deadline
        self.concretize_limit = concretize_limit
        self.vars = {}
        self.kinds = {}
        self.model = None
        self.fresh_n = 0
        self.path_pinned = False

    # -- solver ------------------------------------------------------------------------------------------------------
    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            # Second opinion without incremental state.
            t = time.time()
            s = z3.Solver()
            s.set('timeout', self.query_timeout_ms)
            s.add(*self.solver.assertions())
            s.add(*extra)
            r = s.check()
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
            if r == z3.sat:
                self.tmp_model = s.model()
            elif r == z3.unknown:
                self.stats.unknown += 1
        elif r == z3.sat:
            self.tmp_model = self.solver.model()
        return r

    def fresh_real(self, prefix):
        self.fresh_n += 1
        return z3.Real('__{}{}'.format(prefix, self.fresh_n))

    def _replay_dec(self, kind):
        if self.pos < len(self.decs):
            d = self.decs[self.pos]
            if d.kind not in kind:
                raise NonDeterminism('expected {} found {}'.format(kind, d.kind))
            self.pos += 1
            return d
        return None

    def _push_dec(self, dec, e=None):
        if e is not None:
            self.solver.push()
            self.solver.add(e)
            dec.pushed = True
        self.decs.append(dec)
        self.pos += 1

    def _tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time')

    def _assert_frame(self, e):
        """Assert inside the current path; recorded as a decision so that backtracking removes it."""
        if self._replay_dec('a') is not None:
            return False
        self._push_dec(_Dec('a', True), e)
        return True

    def assume(self, cond):
        if not is_sym(cond):
            if not cond:
                raise PathAbort()
            return
        e = to_z3bool(cond)
        if not self._assert_frame(e):
            return
        if self.model is not None and z3.is_true(self.model.eval(e, model_completion=True)):
            return
        r = self._check()
        if r == z3.sat:
            self.model = self.tmp_model
        elif r == z3.unsat:
            raise PathAbort()
        else:
            raise Unsupported('solver unknown in assume')

    def add_axiom(self, e):
        """Constrain a fresh variable (always satisfiable)."""
        if self._assert_frame(e):
            self.model = None

    def current_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.tmp_model
            elif r == z3.unsat:
                raise PathAbort()
            else:
                raise Unsupported('solver unknown')
        return self.model

    def branch(self, e):
        e = _simp(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        d = self._replay_dec('b')
        if d is not None:
            return d.value
        self._tick()
        self.stats.decisions += 1
        v = self.current_model().eval(e, model_completion=True)
        if z3.is_true(v):
            first = True
        elif z3.is_false(v):
            first = False
        else:
            r = self._check(e)
            if r == z3.unknown:
                raise Unsupported('solver unknown at a branch')
            first = r == z3.sat
            if first:
                self.model = self.tmp_model
            else:
                self.model = None
        saved = self.model
        r = self._check(z3.Not(e) if first else e)
        self.model = saved
        if r == z3.unknown:
            raise Unsupported('solver unknown at a branch')
        if r == z3.sat:
            self._push_dec(_Dec('b', first, e, (not first,)), e if first else z3.Not(e))
        else:
            self._push_dec(_Dec('b', first, e))
        return first

    def concretize_int(self, e):
        """Fork over every feasible value of an integer term."""
        e = _simp(e)
        if z3.is_int_value(e):
            return e.as_long()
        d = self._replay_dec('vw')
        if d is not None:
            self.path_pinned = self.path_pinned or d.kind == 'w'
            return d.value
        self._tick()
        self.stats.decisions += 1
        vals, whole = self._all_values(e)
        # Too many values: some are explored, and these paths are reported as not decided for all values.
        self.path_pinned = self.path_pinned or not whole
        self._push_dec(_Dec('v' if whole else 'w', vals[0], e, tuple(vals[1:])), e == vals[0])
        self.model = None
        return vals[0]

    def _all_values(self, e):
        vals = []
        self.solver.push()
        try:
            while True:
                r = self._check()
                if r == z3.unknown:
                    raise Unsupported('solver unknown while concretising')
                if r == z3.unsat:
                    break
                v = self.tmp_model.eval(e, model_completion=True)
                if not z3.is_int_value(v):
                    raise Unsupported('cannot concretise')
                v = v.as_long()
                vals.append(v)
                self.solver.add(e != v)
                if len(vals) > self.concretize_limit:
                    return sorted(vals[:4], key=abs), False
        finally:
            self.solver.pop()
        if not vals:
            raise PathAbort()
        vals.sort()
        return vals, True

    def pin_real(self, e):
        """Fix a real to one feasible value.  Under-approximates: the path is reported as not decided for all values."""
        e = _simp(e)
        if z3.is_rational_value(e):
            return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        d = self._replay_dec('p')
        if d is not None:
            self.path_pinned = self.path_pinned or d.rest
            return d.value
        v = self.current_model().eval(e, model_completion=True)
        if not z3.is_rational_value(v):
            raise Unsupported('pin of an irrational value')
        f = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        unique = self._check(e != v) == z3.unsat
        self._push_dec(_Dec('p', f, e, not unique), e == v)
        self.path_pinned = self.path_pinned or not unique
        return f

    # -- exploration -------------------------------------------------------------------------------------------------
    def backtrack(self):
        """Advance to the next unexplored path. Return False when exploration is complete."""
        while self.decs:
            d = self.decs.pop()
            if d.pushed:
                self.solver.pop()
            if d.kind in 'bvw' and d.rest:
                value, rest = d.rest[0], d.rest[1:]
                if d.kind == 'b':
                    e = d.cond if value else z3.Not(d.cond)
                else:
                    e = d.cond == value
                self.solver.push()
                self.solver.add(e)
                self.decs.append(_Dec(d.kind, value, d.cond, rest, True))
                self.model = None
                return True
        return False

    def start_path(self):
        self.pos = 0
        self.fresh_n = 0
        self.path_pinned = False

    def decide(self, cond):
        """Is there an input on this path falsifying cond?  Returns (verdict, model): verdict in holds/cex/unknown."""
        self.stats.checks += 1
        if not is_sym(cond):
            if cond:
                return 'holds', None
            return 'cex', self.current_model()
        e = _simp(z3.Not(to_z3bool(cond)))
        if z3.is_false(e):
            return 'holds', None
        r = self._check(e)
        if r == z3.unsat:
            return 'holds', None
        if r == z3.unknown:
            return 'unknown', None
        return 'cex', self.tmp_model
