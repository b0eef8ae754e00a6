"""C27: slice utilities denote the same selection in every notation."""
import numpy as np
from ocgis.util.helpers import find_index, get_formatted_slice, get_optimal_slice_from_array, get_reduced_slice, get_swap_chain
from ocgis.variable.base import get_mapped_slice

from .common import conc_index, nested

FUNCTIONS = ['ocgis.util.helpers.get_formatted_slice', 'ocgis.util.helpers.get_optimal_slice_from_array',
             'ocgis.util.helpers.get_swap_chain', 'ocgis.util.helpers.find_index',
             'ocgis.variable.base.get_mapped_slice']
BOUNDS = 'axes of length 1..4 (thorough 6) with arbitrary real contents; every integer, slice (step 1..3, open, negative, past ' \
         'the end), boolean array, index array or list of up to 3 (thorough 4) entries; two-dimensional combinations on 2x3; ' \
         'permutations of up to 4 (thorough 5) names; lookups in up to 3 sequences of up to 4 values'

ALL = ('int', 'slice', 'step', 'bool', 'fancy', 'list')


def formatted(S, n, kind, kmax):
    a = S.reals('a', n)
    slc, sel = conc_index(S, 'x', n, (kind,), kmax)
    ret = get_formatted_slice(slc, 1)
    S.check(isinstance(ret, tuple) and len(ret) == 1, 'one entry per axis')
    S.check(isinstance(ret[0], (slice, np.ndarray)), 'slice or array')
    got = a[ret]
    S.check(got.shape == (len(sel),), 'number of elements selected')
    S.check(S.all_([S.eq(got[i], a[s]) for i, s in enumerate(sel)]), 'same elements in the same order')


def formatted_none(S, n):
    a = S.reals('a', n)
    for slc in (None, slice(None)):
        got = a[get_formatted_slice(slc, 1)]
        S.check(S.arr_eq(got, a), 'everything selected')
    b = S.reals('b', (n, 2))
    S.check(S.arr_eq(b[get_formatted_slice(slice(None), 2)], b), 'everything selected in two dimensions')
    S.check(S.arr_eq(b[get_formatted_slice([None, None], 2)], b), 'everything selected by None')


def formatted_2d(S, kinds, kinds1):
    n = (2, 3)
    a = S.reals('a', n)
    s0, e0 = conc_index(S, 'y', n[0], kinds, 1)
    s1, e1 = conc_index(S, 'x', n[1], kinds1, 1)
    ret = get_formatted_slice([s0, s1], 2)
    S.check(len(ret) == 2, 'one entry per axis')
    got = a[ret[0]][:, ret[1]]
    S.check(got.shape == (len(e0), len(e1)), 'shape')
    S.check(S.all_([S.eq(got[i, j], a[p, q]) for i, p in enumerate(e0) for j, q in enumerate(e1)]), 'same elements')
    for bad in (s0, [s0], [s0, s1, s1]):
        if isinstance(bad, slice) and bad == slice(None):
            continue  # selects everything on every axis
        if hasattr(bad, '__len__') and len(bad) == 2:
            continue
        try:
            get_formatted_slice(bad, 2)
        except IndexError:
            ok = True
        else:
            ok = False
        S.check(ok, 'wrong number of axes is rejected')


def optimal(S, n, k):
    a = S.reals('a', n)
    idx = [S.cint('i%d' % j, -n, n - 1) for j in range(k)]
    arr = np.array(idx)
    ret = get_optimal_slice_from_array(arr)
    got = a[ret]
    S.check(got.shape == (k,), 'number of elements')
    S.check(S.all_([S.eq(got[j], a[idx[j]]) for j in range(k)]), 'same elements')
    m = S.mask('m', n)
    got = a[get_optimal_slice_from_array(m)]
    exp = [a[i] for i in range(n) if m[i]]
    S.check(got.shape == (len(exp),), 'number of elements by mask')
    S.check(S.all_([S.eq(g, e) for g, e in zip(got, exp)]), 'same elements by mask')


def _perm(S, name, items):
    items = list(items)
    out = []
    while items:
        out.append(items.pop(S.cint('%s%d' % (name, len(items)), 0, len(items) - 1)))
    return out


def swaps(S, n):
    names = ['a', 'b', 'c', 'd', 'e'][:n]
    actual, desired = _perm(S, 'p', names), _perm(S, 'q', names)
    before = list(actual)
    chain = get_swap_chain(actual, desired)
    S.check(actual == before, 'input unchanged')
    cur = list(actual)
    for i, j in chain:
        cur[i], cur[j] = cur[j], cur[i]
    S.check(cur == desired, 'swaps give the desired order')


def mapped(S, n):
    """A slice given per source name reaches the right destination axis; unknown names are not sliced."""
    names = ['a', 'b', 'c', 'd'][:n]
    src, dst = _perm(S, 'p', names), _perm(S, 'q', names + ['z'])
    dst = dst[:S.cint('ndst', 1, len(dst))]
    los = {k: S.int('lo_' + k, 0, 100) for k in names}
    slc = [slice(los[k], los[k] + 1) for k in src]
    out = get_mapped_slice(slc, src, dst)
    S.check(len(out) == len(dst), 'one slice per destination axis')
    for k, s in zip(dst, out):
        if k == 'z':
            S.check(s == slice(None), 'unknown axes are not sliced')
        else:
            S.check(S.and_(s.start == los[k], s.stop == los[k] + 1), 'slice follows its name')


def find(S, nseq, n):
    seqs = [S.reals('s%d' % i, n, -5, 5) for i in range(nseq)]
    targets = [S.real('t%d' % i, -5, 5) for i in range(nseq)]
    got = find_index(seqs, targets)
    hit = [S.all_([S.eq(seqs[i][j], targets[i]) for i in range(nseq)]) for j in range(n)]
    if got is None:
        S.check(S.not_(S.any_(hit)), 'nothing found only if nothing matches')
    else:
        S.check(hit[int(got)], 'found index matches')
        S.check(S.not_(S.any_(hit[:int(got)])), 'found index is the first match')


def reduced(S, n, k):
    """The smallest window holding every index."""
    a = S.array([S.int('i%d' % i, 0, n - 1) for i in range(k)], 'i')
    v = nested(a)
    s = get_reduced_slice(a)
    S.check(S.all_([S.and_(s.start <= i, i < s.stop) for i in v]), 'indices inside the window')
    S.check(S.and_(S.any_([S.eq(s.start, i) for i in v]), S.any_([S.eq(s.stop - 1, i) for i in v])), 'smallest window')


def tasks(tier):
    t = tier == 'thorough'
    out = []
    for n in range(1, 7 if t else 5):
        for kind in ALL:
            out.append((formatted, {'n': n, 'kind': kind, 'kmax': (4 if n < 5 else 3) if t else (3 if n < 4 else 2)}))
        out.append((formatted_none, {'n': n}))
        for k in range(1, 4 if (t and n < 5) else 3):
            out.append((optimal, {'n': n, 'k': k}))
            out.append((reduced, {'n': n, 'k': k}))
    for kinds in (('int',), ('slice',), ('bool',), ('fancy', 'list'), ('step',)):
        out.append((formatted_2d, {'kinds': kinds, 'kinds1': ('int', 'slice') if t else ('int', 'bool')}))
    for n in range(2, 6 if t else 5):
        out.append((swaps, {'n': n}))
    for n in range(1, 4 if t else 3):
        out.append((mapped, {'n': n}))
    for nseq in (1, 2, 3):
        for n in (1, 2, 3, 4) if (t or nseq < 3) else (1, 2, 3):
            out.append((find, {'nseq': nseq, 'n': n}))
    return out
