"""Helpers shared by harnesses."""
import numpy as np


def clip_bounds(S, start, stop, n):
    """Reference semantics of start:stop on a sequence of length n (symbolic)."""
    a = 0 if start is None else S.ite(start < 0, start + n, start)
    b = n if stop is None else S.ite(stop < 0, stop + n, stop)
    a = S.min(S.max(a, 0), n)
    b = S.min(S.max(b, 0), n)
    return a, S.max(a, b)


def sym_slice(S, name, lo, hi, step=False):
    """An arbitrary slice; open ends are structural choices, indices are symbolic."""
    start = None if S.cbool(name + '.open_start') else S.int(name + '.start', lo, hi)
    stop = None if S.cbool(name + '.open_stop') else S.int(name + '.stop', lo, hi)
    return start, stop


def conc_index(S, name, n, kinds=('int', 'slice', 'step', 'bool', 'fancy'), kmax=2):
    """An arbitrary index of an axis of (concrete) length n.  Returns (index object, list of selected positions)."""
    kind = S.choice(name + '.kind', list(kinds))
    rng = list(range(n))
    if kind == 'int':
        i = S.cint(name + '.i', -n, n - 1)
        return i, [rng[i]]
    if kind in ('slice', 'step'):
        start = None if S.cbool(name + '.open_start') else S.cint(name + '.start', -n - 1, n + 1)
        stop = None if S.cbool(name + '.open_stop') else S.cint(name + '.stop', -n - 1, n + 1)
        slc = slice(start, stop, S.cint(name + '.step', 2, 3) if kind == 'step' else None)
        return slc, rng[slc]
    if kind == 'bool':
        m = S.mask(name + '.m', n)
        return np.array(m), [i for i in rng if m[i]]
    if kind == 'fancy':
        k = S.cint(name + '.k', 1, kmax)
        idx = [S.cint('%s.f%d' % (name, j), -n, n - 1) for j in range(k)]
        return np.array(idx), [rng[i] for i in idx]
    if kind == 'list':
        k = S.cint(name + '.k', 1, kmax)
        idx = [S.cint('%s.f%d' % (name, j), -n, n - 1) for j in range(k)]
        return list(idx), [rng[i] for i in idx]
    raise NotImplementedError(kind)


def nested(arr):
    """Elements of an array as nested Python lists (a scalar stays a scalar)."""
    if isinstance(arr, np.ndarray):
        if arr.ndim == 0:
            return arr.item()
        return [nested(i) for i in arr]
    return arr


def take(values, pos):
    """Outer indexing of nested lists: position lists per axis."""
    if not pos:
        return values
    return [take(values[i], pos[1:]) for i in pos[0]]
