"""Symbolic and concrete sessions, and the exploration loop that ties them together."""
import contextlib
import io
import json
import logging
import math
import os
import signal
import sys
import threading
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

from . import arrays as A
from . import engine as E
from .engine import (Budget, CheckFailed, Engine, NonDeterminism, PathAbort, SymBool, SymNum, Unsupported, is_sym,
                     mkbool, sym_and, sym_iff, sym_implies, sym_ite, sym_not, sym_or, to_z3bool)
from .z3load import z3

TOL = 1e-7


class SessionBase(object):
    """Operations shared by both modes.  Logic helpers work on plain and symbolic values alike."""
    and_ = staticmethod(sym_and)
    or_ = staticmethod(sym_or)
    not_ = staticmethod(sym_not)
    implies = staticmethod(sym_implies)
    iff = staticmethod(sym_iff)
    ite = staticmethod(sym_ite)
    min = staticmethod(lambda *a: _fold(E.sym_min, a))
    max = staticmethod(lambda *a: _fold(E.sym_max, a))

    def all_(self, seq):
        return sym_and(*list(seq))

    def any_(self, seq):
        return sym_or(*list(seq))

    def abs_(self, v):
        return abs(v)

    def eq(self, a, b):
        """Numeric equality; in concrete mode with a rounding tolerance."""
        if isinstance(a, (float, np.floating)) and np.isnan(a):
            return isinstance(b, (float, np.floating)) and bool(np.isnan(b))
        if is_sym(a) or is_sym(b):
            return a == b
        if isinstance(a, (bool, np.bool_, str)) or isinstance(b, (bool, np.bool_, str)) or a is None or b is None:
            return a == b
        try:
            return bool(a == b) or abs(float(a) - float(b)) <= TOL * max(1., abs(float(a)), abs(float(b)))
        except (TypeError, ValueError, OverflowError):
            return False

    def arr_eq(self, a, b):
        """Elementwise numeric equality of two arrays (or nested lists) as one condition."""
        a, b = _flat(a), _flat(b)
        if a[0] != b[0]:
            return False
        return sym_and(*[self.eq(i, j) for i, j in zip(a[1], b[1])])

    def sum_(self, seq):
        r = 0
        for v in seq:
            r = r + v
        return r

    @staticmethod
    def exp(v):
        return v.exp() if is_sym(v) else math.exp(v)

    @staticmethod
    def log(v):
        return v.log() if is_sym(v) else math.log(v)

    def count(self, conds):
        r = 0
        for c in conds:
            r = r + (c.num() if isinstance(c, SymBool) else int(bool(c)))
        return r


def _fold(f, a):
    if len(a) == 1:
        a = list(a[0])
    r = a[0]
    for v in a[1:]:
        r = f(r, v)
    return r


def _flat(a):
    if isinstance(a, np.ma.MaskedArray):
        m = np.ma.getmaskarray(a)
        d = A._objarray(a.data)
        return a.shape, [None if k else v for v, k in zip(d.flat, m.flat)]
    if isinstance(a, np.ndarray):
        return a.shape, list(A._objarray(a).flat)
    a = A._objarray(a)
    return a.shape, list(a.flat)


class Symbolic(SessionBase):
    symbolic = True

    def __init__(self, engine):
        self.engine = engine
        self.reset()

    def reset(self):
        self.inputs = {}  # name -> (kind, term)
        self.checked = 0
        A.set_lazy(False)
        A.set_int_sym(False)

    def lazy(self, flag=True):
        A.set_lazy(flag)

    def int_storage(self, flag=True):
        A.set_int_sym(flag)

    def _declare(self, name, kind, term):
        if name in self.inputs:
            raise RuntimeError('duplicate input {}'.format(name))
        self.inputs[name] = (kind, term)

    def int(self, name, lo, hi):
        t = z3.Int(name)
        self._declare(name, 'i', t)
        self.engine.assume(SymBool(z3.And(t >= lo, t <= hi)))
        return SymNum(t)

    def cint(self, name, lo, hi):
        """An integer input forked over all of its values (one path each)."""
        return int(self.int(name, lo, hi))

    def real(self, name, lo=-1000, hi=1000):
        t = z3.Real(name)
        self._declare(name, 'f', t)
        self.engine.assume(SymBool(z3.And(t >= lo, t <= hi)))
        return SymNum(t)

    def bool(self, name):
        t = z3.Bool(name)
        self._declare(name, 'b', t)
        return SymBool(t)

    def cbool(self, name):
        return bool(self.bool(name))

    def choice(self, name, options):
        return options[self.cint(name, 0, len(options) - 1)]

    def reals(self, name, shape, lo=-1000, hi=1000):
        return self._arr(name, shape, lambda n: self.real(n, lo, hi), 'f')

    def ints(self, name, shape, lo, hi):
        return self._arr(name, shape, lambda n: self.int(n, lo, hi), 'i')

    def bools(self, name, shape):
        return self._arr(name, shape, self.bool, 'b')

    def mask(self, name, shape):
        """A real boolean array forked over all patterns."""
        return A.force_bool(self.bools(name, shape))

    def _arr(self, name, shape, make, kind):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            a[idx] = make('{}[{}]'.format(name, ','.join(map(str, idx))))
        return A.rebuild(a, kind)

    def array(self, values, kind=None):
        """A (possibly symbolic) array from nested values."""
        a = A.SymArray(values)
        a._kind = kind
        return a

    def assume(self, cond):
        self.engine.assume(cond)

    def check(self, cond, label, detail=''):
        self.checked += 1
        verdict, model = self.engine.decide(cond)
        if verdict == 'holds':
            return
        if verdict == 'unknown':
            raise Unsupported('solver unknown for check {}'.format(label))
        raise Counterexample(label, detail, cond, model)

    def fork(self, cond):
        return bool(cond)


class Counterexample(BaseException):
    def __init__(self, label, detail, cond, model):
        self.label, self.detail, self.cond, self.model = label, detail, cond, model
        super(Counterexample, self).__init__(label)


class Concrete(SessionBase):
    """Runs a harness on given plain inputs against the untouched code."""
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.checked = 0

    def reset(self):
        self.checked = 0

    def lazy(self, flag=True):
        pass

    int_storage = lazy

    def int(self, name, lo, hi):
        v = int(self.values.get(name, lo))
        if not lo <= v <= hi:
            raise PathAbort()
        return v

    cint = int

    def real(self, name, lo=-1000, hi=1000):
        v = float(self.values.get(name, lo))
        if not lo - 1e-9 <= v <= hi + 1e-9:
            raise PathAbort()
        return v

    def bool(self, name):
        return bool(self.values.get(name, False))

    cbool = bool

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def _arr(self, name, shape, make, dtype):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape, dtype=dtype)
        for idx in np.ndindex(*shape):
            a[idx] = make('{}[{}]'.format(name, ','.join(map(str, idx))))
        return a

    def reals(self, name, shape, lo=-1000, hi=1000):
        return self._arr(name, shape, lambda n: self.real(n, lo, hi), float)

    def ints(self, name, shape, lo, hi):
        return self._arr(name, shape, lambda n: self.int(n, lo, hi), int)

    def bools(self, name, shape):
        return self._arr(name, shape, self.bool, bool)

    mask = bools

    def array(self, values, kind=None):
        return np.array(values, dtype={'f': float, 'i': int, 'b': bool, None: None}[kind])

    def assume(self, cond):
        if not cond:
            raise PathAbort()

    def check(self, cond, label, detail=''):
        self.checked += 1
        if not cond:
            raise CheckFailed(label, detail)

    def fork(self, cond):
        return bool(cond)


# ---------------------------------------------------------------------------------------------------------------------

class Patcher(object):
    """Swaps the numpy global of ocgis modules (and other named globals) while symbolic code runs."""

    def __init__(self):
        self.saved = None
        self.extra = {}  # (module name, attribute) -> replacement used during symbolic runs only
        self.swaps = []  # (original object, replacement): every ocgis global or class attribute that is the original

    def targets(self):
        return [m for n, m in list(sys.modules.items())
                if (n == 'ocgis' or n.startswith('ocgis.')) and m is not None and '.test' not in n]

    def install(self):
        self.saved = []
        for m in self.targets():
            d = m.__dict__
            if d.get('np') is np:
                self.saved.append((d, 'np', np))
                d['np'] = A.NpShim
            if 'len' not in d:
                self.saved.append((d, 'len', _MISSING))
                d['len'] = sym_len
        self.saved.append((np.ma.MaskedArray, 'dtype', np.ma.MaskedArray.__dict__['dtype']))
        np.ma.MaskedArray.dtype = A.MASKED_DTYPE
        for (mod, attr), repl in self.extra.items():
            d = sys.modules[mod].__dict__
            self.saved.append((d, attr, d.get(attr, _MISSING)))
            d[attr] = repl
        if self.swaps:
            table = {id(o): r for o, r in self.swaps}
            for m in self.targets():
                for k, v in list(m.__dict__.items()):
                    if id(v) in table:
                        self.saved.append((m.__dict__, k, v))
                        m.__dict__[k] = table[id(v)]
                    elif isinstance(v, type) and v.__module__ == m.__name__:
                        for ck, cv in list(v.__dict__.items()):
                            if id(cv) in table:
                                self.saved.append((v, ck, cv))
                                setattr(v, ck, table[id(cv)])

    def remove(self):
        for d, k, v in reversed(self.saved or []):
            if isinstance(d, type):
                setattr(d, k, v)
                continue
            if v is _MISSING:
                d.pop(k, None)
            else:
                d[k] = v
        self.saved = None


_MISSING = object()


def sym_len(x):
    """len() that lets a Python-level __len__ return a symbolic length."""
    t = type(x)
    if t in (list, tuple, dict, str, np.ndarray) or '__len__' not in t.__dict__ and not hasattr(t, '__len__'):
        return len(x)
    f = t.__len__
    if hasattr(f, '__code__'):
        return f(x)
    return len(x)


def sym_int(x=0, *a):
    """int() that keeps symbolic numbers symbolic (installed only in modules that use int as a function)."""
    if isinstance(x, SymNum):
        return x.__trunc__()
    if isinstance(x, SymBool):
        return x.num()
    return int(x, *a) if a else int(x)


def sym_float(x=0.):
    if isinstance(x, SymNum):
        return x.toreal()
    if isinstance(x, SymBool):
        return x.num().toreal()
    return float(x)


@contextlib.contextmanager
def _quiet():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


def model_inputs(inputs, model):
    out = {}
    for name, (kind, term) in inputs.items():
        v = model.eval(term, model_completion=True)
        if kind == 'b':
            out[name] = bool(z3.is_true(v))
        elif kind == 'i':
            out[name] = v.as_long()
        else:
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            out[name] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    return out


def dyadic_model(engine, inputs, extra=()):
    """A model whose real inputs are small multiples of 1/64 (exact in floating point), or None."""
    reals = [t for k, t in inputs.values() if k == 'f']
    if not reals:
        r = engine._check(*extra)
        return engine.tmp_model if r == z3.sat else None
    for den in (4, 64, 1024):
        cons = list(extra)
        for i, t in enumerate(reals):
            k = z3.Int('__dy{}'.format(i))
            cons.append(t * den == z3.ToReal(k))
        engine.solver.push()
        engine.solver.set('timeout', 2000)
        try:
            engine.solver.add(*cons)
            t0 = time.time()
            r = engine.solver.check()
            engine.stats.queries += 1
            engine.stats.solver_s += time.time() - t0
            if r == z3.sat:
                return engine.solver.model()
        finally:
            engine.solver.set('timeout', engine.query_timeout_ms)
            engine.solver.pop()
    return None


REPLAY_LIMIT = 40.  # Replays take milliseconds; one that takes this long does not end.
PATH_LIMIT = 100.  # A path that takes this long is replayed.


class NoAnswer(BaseException):
    """A concrete run did not end in time."""


@contextlib.contextmanager
def time_limit(seconds, exc):
    """Raise ``exc`` in the main thread after some seconds (and again, if it is swallowed)."""
    if threading.current_thread() is not threading.main_thread():
        yield
        return

    def ring(*_):
        raise exc

    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, max(seconds, 0.1), 5.)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_concrete(harness, params, values):
    """Returns (outcome, label, detail): outcome in ok/aborted/failed/error."""
    S = Concrete(values)
    A.set_lazy(False)
    try:
        with _quiet(), time_limit(REPLAY_LIMIT, NoAnswer()):
            harness(S, **params)
    except NoAnswer as e:
        return 'error', 'no answer', ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]
    except PathAbort:
        return 'aborted', None, None
    except CheckFailed as e:
        return 'failed', e.label, str(e.detail)
    except Exception as e:
        return 'error', 'exception:{}'.format(type(e).__name__), ''.join(
            traceback.format_exception(type(e), e, e.__traceback__))[-2500:]
    return ('ok' if S.checked else 'nochecks'), None, None


def explore(harness, params, deadline=None, max_paths=10 ** 7, replay_limit=400, patcher=None, max_violations=1,
            query_timeout_ms=20000, known=()):
    """Explore every path of ``harness(S, **params)``. Returns a result dict."""
    eng = Engine(deadline=deadline, query_timeout_ms=query_timeout_ms)
    S = Symbolic(eng)
    patcher = patcher or Patcher()
    st = eng.stats
    result = {'violations': [], 'known': [], 'undecided': [], 'complete': False, 'samples': []}
    t0 = time.time()

    def undecided(why, n=[0]):
        n[0] += 1
        if len(result['undecided']) < 10:
            result['undecided'].append(why)
        result['undecided_n'] = n[0]

    def concretely(extra=(), prefer_model=None):
        """Replay inputs satisfying the current path (and extra) concretely; yields (inputs, outcome)."""
        m = dyadic_model(eng, S.inputs, extra)
        for mm in (m, prefer_model):
            if mm is None:
                continue
            vals = model_inputs(S.inputs, mm)
            yield vals, run_concrete(harness, params, vals), mm is m

    def record(vals, label, detail):
        v = {'inputs': vals, 'label': label, 'detail': detail}
        for k in known:
            if _known_match(k, params, label):
                if k['key'] not in result['known']:
                    result['known'].append(k['key'])
                return
        result['violations'].append(v)

    while True:
        eng.start_path()
        S.reset()
        outcome = 'ok'
        info = None
        try:
            E.CUR = eng
            patcher.install()
            try:
                started = time.time()
                limit = PATH_LIMIT if deadline is None else min(PATH_LIMIT, deadline - started + 5)
                with _quiet(), time_limit(limit, Budget('path')):
                    harness(S, **params)
            finally:
                E.CUR = None
                patcher.remove()
                A.set_lazy(False)
                A.set_int_sym(False)
        except PathAbort:
            outcome = 'abort'
        except Counterexample as e:
            outcome, info = 'cex', e
        except Unsupported as e:
            outcome, info = 'unsupported', e
        except Budget as e:
            outcome, info = 'budget', e
        except NonDeterminism as e:
            outcome, info = 'nondet', e
        except Exception as e:
            outcome, info = 'exception', e
        except z3.Z3Exception as e:
            outcome, info = 'unsupported', e

        if outcome == 'budget':
            if time.time() - started > 15:
                # Either a hard path or one that does not end: its inputs are run for a while.
                try:
                    for vals, (oc, label, detail), exact in concretely(()):
                        if label == 'no answer':
                            record(vals, label, detail)
                            break
                except (PathAbort, Unsupported, z3.Z3Exception):
                    pass
            undecided('time budget exhausted')
            break
        st.paths += 1
        if S.checked:
            st.reached += 1
        if outcome == 'abort':
            st.aborted += 1
        elif outcome == 'cex':
            extra = [z3.Not(to_z3bool(info.cond))] if is_sym(info.cond) else []
            hit = False
            for vals, (oc, label, detail), exact in concretely(extra, info.model):
                if oc in ('failed', 'error'):
                    record(vals, label, detail or info.detail)
                    hit = True
                    break
            if not hit:
                undecided('counterexample to {} did not reproduce: {}'.format(info.label, model_inputs(S.inputs, info.model)))
        elif outcome == 'exception':
            hit = False
            tb = ''.join(traceback.format_exception(type(info), info, info.__traceback__))[-1500:]
            try:
                pm = eng.current_model()
            except BaseException:
                pm = None
            for vals, (oc, label, detail), exact in concretely((), pm):
                if oc in ('failed', 'error'):
                    record(vals, label, detail)
                    hit = True
                    break
            if not hit:
                undecided('exception only in the symbolic run: {}'.format(tb))
        elif outcome in ('unsupported', 'nondet'):
            st.unsupported += 1
            undecided('{}: {}'.format(outcome, ''.join(traceback.format_exception(type(info), info, info.__traceback__))[-1500:]))
            if outcome == 'unsupported':
                try:
                    _fallback(eng, S, harness, params, record)
                except (PathAbort, Unsupported):
                    pass
        else:
            if eng.path_pinned:
                st.pinned += 1
                undecided('real value pinned')
            if st.replayed < replay_limit or st.paths % 37 == 0:
                try:
                    pm = eng.current_model()
                except (PathAbort, Unsupported):
                    pm = None
                bad = None
                for vals, (oc, label, detail), exact in concretely((), pm):
                    if oc in ('ok', 'nochecks'):
                        st.replayed += 1
                        if len(result['samples']) < 2:
                            result['samples'].append(vals)
                        bad = None
                        break
                    if oc in ('failed', 'error'):
                        bad = (vals, label, detail, exact)
                        if exact:
                            break
                    else:
                        st.replay_skipped += 1
                if bad is not None:
                    if bad[3]:
                        record(*bad[:3])
                    else:
                        undecided('rounding-sensitive replay failed {} {}: {}'.format(*bad[:3]))
        if len(result['violations']) >= max_violations:
            break
        if outcome == 'nondet':
            break
        if st.paths >= max_paths:
            undecided('path budget exhausted')
            break
        if not eng.backtrack():
            result['complete'] = True
            break
    d = st.as_dict()
    d.pop('samples')
    result['stats'] = d
    result['wall'] = time.time() - t0
    return result


def _fallback(eng, S, harness, params, record):
    """The engine cannot follow this path: try a few concrete members of it (reported as undecided either way)."""
    extra = []
    for _ in range(4):
        m = dyadic_model(eng, S.inputs, extra)
        if m is None:
            return
        vals = model_inputs(S.inputs, m)
        oc, label, detail = run_concrete(harness, params, vals)
        if oc in ('failed', 'error'):
            record(vals, label, detail)
            return
        diff = []
        for k, t in S.inputs.values():
            v = m.eval(t, model_completion=True)
            diff.append(t != v)
        if not diff:
            return
        half = max(1, len(diff) // 2)
        extra.append(z3.And(*diff[:half]) if len(diff) > 1 else diff[0])


def _known_match(k, params, label):
    if k.get('label') and k['label'] != label:
        return False
    for key, val in (k.get('params') or {}).items():
        if params.get(key) != val:
            return False
    return True
