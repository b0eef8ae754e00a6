"""C26: expressions and elementwise functions are evaluated cell by cell."""
import numpy as np
from ocgis import Variable
from ocgis.calc.eval_function import EvalFunction
from ocgis.calc.library.index.heat_index import HeatIndex
from ocgis.calc.library.math import Divide, NaturalLogarithm

from .calc_common import SIZES, make_field, unchanged

FUNCTIONS = ['ocgis.calc.eval_function.EvalFunction._execute_', 'EvalFunction._get_eval_string_', 'EvalFunction.is_multivariate',
             'ocgis.calc.library.math.{Divide,NaturalLogarithm}.calculate', 'ocgis.calc.library.index.heat_index.HeatIndex.calculate',
             'ocgis.calc.base.AbstractMultivariateFunction._execute_', 'AbstractUnivariateFunction._execute_',
             'AbstractFunction._iter_conformed_arrays_', 'ocgis.util.broadcaster.broadcast_array_by_dimension_names']
BOUNDS = '18 expressions over up to 3 of 5 variables whose names contain each other and function names, and the built-in functions, on ' \
         'up to 4 cells and several dimension orders (also different ones for the operands); any values (+-1000) and any masks of up to two cells'
OUTSIDE = 'operands with different extra dimensions, temporal aggregation after the calculation, rounding of floats, file-only execution'
ASSUMPTIONS = ['exp and log are functions of their argument only (uninterpreted in the solver, evaluated when a counterexample is replayed)',
               'denominators are 0 or at least 1e-6 in size (masked division also masks quotients that overflow)']

NAMES = ('tas', 'tasmax', 'a', 'exposure', 'tas_2')
# Expression, variables it uses, value, condition for a defined value.
ONE = lambda *a: True
EXPR = {
    'out=tas': ('tas', lambda S, x: x, ONE),
    'out=tas+1': ('tas', lambda S, x: x + 1, ONE),
    'foo_3=4-tas': ('tas', lambda S, x: 4 - x, ONE),
    'out=tas-tas-tas-1': ('tas', lambda S, x: -x - 1, ONE),
    'out=-tas': ('tas', lambda S, x: -x, ONE),
    'tas=tas*2/3': ('tas', lambda S, x: x * 2 / 3, ONE),
    'out = tas - tasmax * 2': (('tas', 'tasmax'), lambda S, x, y: x - y * 2, ONE),
    'out=tasmax-tas+tas_2': (('tasmax', 'tas', 'tas_2'), lambda S, x, y, z: x - y + z, ONE),
    'out=(tasmax-tas)*(a+2.5)': (('tasmax', 'tas', 'a'), lambda S, x, y, z: (x - y) * (z + 2.5), ONE),
    'out=exposure-a': (('exposure', 'a'), lambda S, x, y: x - y, ONE),
    'out=tas/a': (('tas', 'a'), lambda S, x, y: x / y, lambda x, y: y != 0),
    'out=1/(tas-tasmax)': (('tas', 'tasmax'), lambda S, x, y: 1 / (x - y), lambda x, y: x != y),
    'out=power(tas,2)-power(a, 3)': (('tas', 'a'), lambda S, x, y: x * x - y * y * y, ONE),
    'out=abs(tas-tasmax)': (('tas', 'tasmax'), lambda S, x, y: S.ite(x >= y, x - y, y - x), ONE),
    'out=abs(a)': ('a', lambda S, x: S.ite(x >= 0, x, -x), ONE),
    'out=exp(tas)*2': ('tas', lambda S, x: S.exp(x) * 2, ONE),
    'out=exp(exposure-a)': (('exposure', 'a'), lambda S, x, y: S.exp(x - y), ONE),
    'out=log(tas)+a': (('tas', 'a'), lambda S, x, y: S.log(x) + y, lambda x, y: x > 0),
}


def add(S, f, name, dims, nt, sizes, lo, hi, masked):
    sizes = dict(SIZES, time=nt, **(sizes or {}))
    shape = tuple(sizes[d] for d in dims)
    v = S.reals(name, shape, lo, hi)
    m = np.zeros(shape, dtype=bool)
    for k, i in enumerate(np.ndindex(*shape)):
        if k < masked:
            m[i] = S.cbool('mask_%s_%d' % (name, k))
    ref, rm = {i: v[i] for i in np.ndindex(*shape)}, {i: bool(m[i]) for i in np.ndindex(*shape)}
    f.add_variable(Variable(name, value=v, mask=m if masked else None, dimensions=dims), is_data=True, force=True)
    return ref, rm


def build(S, names, dims, nt, sizes=None, lo=-1000, hi=1000, masked=1, orders=None):
    f, _, _, _, shape = make_field(S, nt, dims, 1, 0, sizes, months=[1] * nt, values=lambda sh: S.array(np.zeros(sh).tolist(), 'f'))
    f.remove_variable('data')
    out = {}
    for k, n in enumerate(names):
        d = dims if orders is None else orders[k % len(orders)]
        ref, rm = add(S, f, n, d, nt, sizes, lo, hi, masked if k < 2 else 0)
        out[n] = (d, ref, rm)
    return f, out, shape


def lookup(data, dims, i):
    """The value and mask of the cell that index ``i`` along ``dims`` denotes."""
    d, ref, rm = data
    j = tuple(i[dims.index(n)] for n in d)
    return ref[j], rm[j]


def sep(S, d):
    """Denominators are zero or not tiny: numpy's masked division also masks overflowing quotients."""
    S.assume(S.or_(d == 0, d >= 1e-6, d <= -1e-6))


def compare(S, out, dims, data, used, value, ok):
    first = data[used[0]][0]
    S.check([d.name for d in out.dimensions] == list(first), 'dimensions')
    ov, om = out.get_value(), out.get_mask()
    for i in np.ndindex(*out.shape):
        vals = [lookup(data[u], first, i) for u in used]
        masked = any(m for _, m in vals)
        args = [v for v, _ in vals]
        defined = True if masked else bool(ok(*args))
        S.check((False if om is None else bool(om[i])) == (masked or not defined), 'mask')
        if not masked and defined:
            S.check(S.eq(ov[i], value(S, *args)), 'value')


def same_inputs(S, f, data):
    for n in data:
        unchanged(S, f, n, data[n][1], data[n][2])


def expression(S, expr, nt, dims, sizes=None, masked=1, orders=None, others=()):
    used, value, ok = EXPR[expr]
    used = (used,) if isinstance(used, str) else used
    order = sorted(used)
    f, data, shape = build(S, sorted(used) + list(others), dims, nt, sizes, 0.5 if 'log' in expr else -1000, 1000, masked, orders)
    if '/' in expr and len(used) > 1:
        first = data[order[0]][0]
        for i in np.ndindex(*[dict(SIZES, time=nt, **(sizes or {}))[d] for d in first]):
            x = {u: lookup(data[u], first, i)[0] for u in used}
            sep(S, x['a'] if 'a' in x else x['tas'] - x['tasmax'])
    vc = EvalFunction(expr=expr, field=f).execute()
    name = expr.split('=')[0].strip()
    S.check(list(vc.keys()) == [name], 'name of the output')
    compare(S, vc[name], dims, data, order, lambda S, *a: value(S, *[a[order.index(u)] for u in used]),
            lambda *a: ok(*[a[order.index(u)] for u in used]))
    S.check(EvalFunction.is_multivariate(expr) == (len(used) > 1), 'number of variables')
    same_inputs(S, f, data)


def rejected(S):
    f, data, shape = build(S, ('tas', 'a'), ('time', 'x'), 2)
    for expr in ('tas+1', 'out=tas+b', 'out=foo(tas)', 'out=tas+a=2', 'out=__import__(tas)', 'out=tas.value', 'out=np.exp(tas)'):
        try:
            EvalFunction(expr=expr, field=f).execute()
            S.check(False, 'rejected ' + expr)
        except ValueError:
            S.check(True, 'rejected ' + expr)
    same_inputs(S, f, data)


def divide(S, nt, dims, sizes=None, masked=1, orders=None, reverse=False):
    names = ('tas', 'a')
    f, data, shape = build(S, names, dims, nt, sizes, masked=masked, orders=orders)
    n, d = names[::-1] if reverse else names
    for v in data[d][1].values():
        sep(S, v)
    out = Divide(field=f, alias='q', parms={'arr1': n, 'arr2': d}).execute()['q']
    compare(S, out, dims, data, (n, d), lambda S, x, y: x / y, lambda x, y: y != 0)
    same_inputs(S, f, data)


def logarithm(S, nt, dims, sizes=None, masked=1):
    f, data, shape = build(S, ('tas',), dims, nt, sizes, masked=masked)
    out = NaturalLogarithm(field=f, alias='q').execute()['q']
    compare(S, out, dims, data, ('tas',), lambda S, x: S.log(x), lambda x: x > 0)
    same_inputs(S, f, data)


C = [-42.379, 2.04901523, 10.14333127, -0.22475541, -6.83783e-3, -5.481717e-2, 1.22874e-3, 8.5282e-4, -1.99e-6]


def heat(S, nt, dims, sizes=None, masked=1, orders=None, lo=0, hi=120):
    f, data, shape = build(S, ('tas', 'rhs'), dims, nt, sizes, lo, hi, masked, orders)
    f['tas'].units, f['rhs'].units = 'fahrenheit', 'percent'
    out = HeatIndex(field=f, alias='q', parms={'tas': 'tas', 'rhs': 'rhs'}).execute()['q']
    # Rothfusz regression.
    compare(S, out, dims, data, ('tas', 'rhs'),
            lambda S, t, r: C[0] + C[1] * t + C[2] * r + C[3] * t * r + C[4] * t * t + C[5] * r * r + C[6] * t * t * r + C[7] * t * r * r +
            C[8] * t * t * r * r, lambda t, r: S.and_(t >= 80, r >= 40))
    same_inputs(S, f, data)


ORDERS = [('x', 'time'), ('time', 'y', 'x'), ('time', 'level', 'x'), ('realization', 'time', 'x'), ('time', 'other', 'x')]


def tasks(tier):
    th = tier == 'thorough'
    one = {'x': 1}
    out = [(rejected, {})]
    for k, e in enumerate(sorted(EXPR)):
        out.append((expression, {'expr': e, 'nt': 2, 'dims': ('time', 'x'), 'sizes': {'x': 2 if th else 1}}))
        out.append((expression, {'expr': e, 'nt': 2, 'dims': ORDERS[k % len(ORDERS)], 'sizes': one, 'masked': 1}))
        out.append((expression, {'expr': e, 'nt': 2, 'dims': ('time', 'x'), 'sizes': one, 'others': [n for n in NAMES if n not in EXPR[e][0]
                                 and n != EXPR[e][0]], 'masked': 0}))
        if not isinstance(EXPR[e][0], str):
            out.append((expression, {'expr': e, 'nt': 2, 'dims': ('time', 'x'), 'sizes': one, 'orders': [('x', 'time'), ('time', 'x')]}))
    for k, dims in enumerate(ORDERS + [('time', 'x')]):
        out.append((divide, {'nt': 2, 'dims': dims, 'sizes': one, 'masked': 1, 'reverse': bool(k % 2)}))
        out.append((logarithm, {'nt': 2, 'dims': dims, 'sizes': one, 'masked': 2}))
        out.append((heat, {'nt': 2, 'dims': dims, 'sizes': one, 'masked': 1}))
    for o in ([('x', 'time'), ('time', 'x')], [('time', 'y', 'x'), ('y', 'time', 'x')]):
        dims = tuple(o[0])
        out.append((divide, {'nt': 2, 'dims': dims, 'sizes': one, 'orders': o, 'masked': 1}))
        out.append((heat, {'nt': 2, 'dims': dims, 'sizes': one, 'orders': o, 'masked': 1}))
    return out
