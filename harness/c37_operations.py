"""C37: operations give the result of their parts applied in the documented order."""
import datetime

import numpy as np
from ocgis import Dimension, Field, Grid, OcgOperations, TemporalVariable, Variable
from ocgis.exc import ExtentError
from ocgis.variable.crs import CFRotatedPole, Spherical
from shapely.affinity import translate
from shapely.geometry import Point, Polygon, box

FUNCTIONS = ['ocgis.ops.core.OcgOperations.execute', 'ocgis.ops.engine.OperationsEngine', 'ocgis.ops.engine._update_aggregation_wrapping_crs_',
             'ocgis.ops.parms.definition (parsing of the arguments)', 'ocgis.ops.interpreter.OcgInterpreter.execute', 'ocgis.collection.spatial.SpatialCollection',
             'ocgis.spatial.spatial_subset.SpatialSubsetOperation.get_spatial_subset', 'ocgis.spatial.grid.Grid.get_intersects / get_intersection',
             'ocgis.variable.geom.GeometryVariable.{get_intersects,get_intersection,get_unioned,get_nearest}', 'ocgis.calc.engine.CalculationEngine.execute']
BOUNDS = 'fields of 4 time steps in two months, up to 2 levels and 3x4 cells, any data values (+-1000) and masks of up to three elements; fixed ' \
         'coordinates, selection geometries and combinations of options'
OUTSIDE = 'regridding, file formats, rounding of areas'
ASSUMPTIONS = ['geometry predicates and areas of GEOS are exact for boxes']

LON, LAT = [100., 101., 103., 104.], [10., 11., 12.]
# Cell widths and heights are powers of two so that relative areas are exact.
XB, YB = [(99., 101.), (101., 102.), (102., 104.), (104., 105.)], [(9.5, 10.5), (10.5, 11.5), (11.5, 13.5)]
DAYS = [0., 1., 31., 33.]
MONTH = [1, 1, 2, 2]
BOXES = {'one': (100.5, 10., 103., 11.), 'edge': (98., 0., 101.5, 30.), 'cell': (101.25, 10.75, 101.75, 11.25), 'all': (90., 0., 120., 40.),
         'none': (0., 0., 5., 5.), 'right': (103., 11., 110., 12.5)}


def field(S, ny, nx, nt, levels=0, masked=0, name='fld', var='tas', smask=0, bounds=True, x0=0., more=False):
    f = Field(name=name, crs=Spherical())
    T, Y, X, L = (Dimension(n, size=k) for n, k in (('time', nt), ('lat', ny), ('lon', nx), ('plev', max(levels, 1))))
    bnd = lambda n, c, d: Variable(n, value=[list(b) for b in c], dimensions=[d, 'bounds']) if bounds else None
    x = Variable('lon', value=[q + x0 for q in LON[:nx]], dimensions=X, bounds=bnd('lon_bounds', [(q[0] + x0, q[1] + x0) for q in XB[:nx]], X), units='degrees_east')
    y = Variable('lat', value=LAT[:ny], dimensions=Y, bounds=bnd('lat_bounds', YB[:ny], Y), units='degrees_north')
    f.set_grid(Grid(x, y))
    f.set_time(TemporalVariable(name='time', value=DAYS[:nt], dimensions=T, units='days since 2000-01-01', calendar='standard'))
    if levels:
        f.set_level(Variable('plev', value=np.arange(1., levels + 1), dimensions=L))
    shape = (nt,) + ((levels,) if levels else ()) + (ny, nx)
    ref = {}
    for n in [var] + (['second'] if more else []):
        v = S.reals(name + '.' + n, shape, -1000, 1000)
        m = np.zeros(shape, dtype=bool)
        if n == var:
            for k in range(masked):
                cell = list(np.ndindex(*shape[1:]))[(k * 5) % int(np.prod(shape[1:]))]
                m[(k % nt,) + cell] = S.cbool('%s.m%d' % (name, k))
        f.add_variable(Variable(n, value=v, mask=m if masked and n == var else None, dimensions=[T] + ([L] if levels else []) + [Y, X],
                                units='K'), is_data=True)
        ref[n] = v.copy(), m
    sm = np.zeros((ny, nx), dtype=bool)
    for k in range(smask):
        sm[k % ny, (k * 2) % nx] = S.cbool('%s.sm%d' % (name, k))
    if smask:
        f.grid.set_mask(sm, cascade=True)
        for n, (v, m) in ref.items():
            m[...] = np.logical_or(m, sm)
    return f, ref, sm


# Selections that are no boxes, with the cells they have to keep.
PLUS = {(1, 1), (0, 1), (2, 1), (1, 0), (1, 2)}
OTHER = {'point': (Point(101.5, 11.), {(1, 1)}), 'edge point': (Point(103., 13.25), {(2, 2)}), 'out point': (Point(70., 11.), set()),
         'disc': (Point(101.5, 11.).buffer(0.6), PLUS),
         'triangle': (Polygon([(99.25, 9.75), (103.5, 9.75), (99.25, 13.25)]), {(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1)})}


def shape_of(name, move):
    g = OTHER[name][0] if name in OTHER else box(*BOXES[name])
    return translate(g, move)


def overlap(b, i, j):
    if b in OTHER:
        return int((i, j) in OTHER[b][1])
    b = BOXES[b]
    w = min(XB[j][1], b[2]) - max(XB[j][0], b[0])
    h = min(YB[i][1], b[3]) - max(YB[i][0], b[1])
    return w * h if w > 0 and h > 0 else 0


def area(i, j):
    return (XB[j][1] - XB[j][0]) * (YB[i][1] - YB[i][0])


class Ref(object):
    """Plain values of one variable: {(time, level, y, x): value or None}."""

    def __init__(self, S, times, levels, cells):
        self.S, self.times, self.levels, self.cells = S, times, levels, cells


def monthly(S, how, values):
    if not values:
        return None
    if how == 'mean':
        return S.sum_(values) / len(values)
    if how == 'sum':
        return S.sum_(values)
    if how == 'max':
        return values[0] if len(values) == 1 else S.max(*values)
    raise NotImplementedError(how)


def wmean(pairs):
    """Weighted mean of (value, weight) without the masked ones."""
    pairs = [p for p in pairs if p[0] is not None]
    if not pairs:
        return None
    num = den = 0
    for v, w in pairs:
        num, den = num + v * w, den + w
    return num / den


def compare(S, variable, want, shape, label):
    """``want`` has a value or None (masked) for each index."""
    S.check(variable.shape == tuple(shape), label + ': shape')
    v, m = variable.get_value(), variable.get_mask()
    for i in np.ndindex(*shape):
        masked = False if m is None else bool(m[i])
        S.check(masked == (want[i] is None), label + ': mask')
        if want[i] is not None:
            S.check(S.eq(v[i], want[i]), label + ': value')


def operations(S, ny=3, nx=4, nt=4, levels=0, masked=2, smask=0, geom=None, clip=False, aggregate=False, calc=None, calc_raw=False,
               grouping=('month',), time_range=None, time_region=None, func=False, level_range=None, snippet=False, slc=None, allow_empty=False,
               agg_selection=False, bounds=True, datasets=1, more=False, sample=False, output_crs=False, x0=0.,
               wrapping=None, reorder=False, move=None, nearest=None, radius=None, geom_crs=None):
    made = []
    for k in range(datasets):
        made.append(field(S, ny, nx, nt, levels, masked, 'fld%d' % k, 'tas', smask, bounds, x0, more=more))
    move = x0 if move is None else move
    kw = {}
    times, lev = list(range(nt)), list(range(levels)) if levels else None
    if time_range is not None:
        times = [t for t in times if time_range[0] <= DAYS[t] <= time_range[1]]
        kw['time_range'] = [datetime.datetime(2000, 1, 1) + datetime.timedelta(k) for k in time_range]
    if time_region is not None:
        kw['time_region'] = {'month': [time_region]}
        times = [t for t in times if MONTH[t] == time_region]
    if func:
        # Indices are relative to what is left by the other options.
        kw['time_subset_func'] = lambda values, bounds=None: [k for k, d in enumerate(values) if d.day == 2 or d.day == 3]
        times = [t for t in times if DAYS[t] in (1., 33.)]
    if level_range is not None:
        lev = [k for k in lev if level_range[0] <= k + 1 <= level_range[1]]
        kw['level_range'] = list(level_range)
    rows, cols = list(range(ny)), list(range(nx))
    if snippet:
        kw['snippet'] = True
        times, lev = times[:1], lev and lev[:1]
    if slc is not None:
        kw['slice'] = [None] + list(slc)
        at = lambda seq, s: seq if s is None else seq[s[0]:s[1]]
        times, lev, rows, cols = at(times, slc[0]), lev and at(lev, slc[1]), at(rows, slc[2]), at(cols, slc[3])
    names = geom if geom is None or isinstance(geom, (list, tuple)) else [geom]
    if names:
        kw['geom'] = [{'geom': shape_of(n, move), 'properties': {'UGID': 5 + k, 'NAME': n}} for k, n in enumerate(names)]
        kw['spatial_operation'] = 'clip' if clip else 'intersects'
    cs = None
    if calc:
        cs = [{'func': calc, 'name': 'out'}] if calc in ('mean', 'max', 'sum') else calc
        kw.update(calc=cs, calc_grouping=list(grouping) if grouping else None, calc_raw=calc_raw, calc_sample_size=sample)
    if output_crs:
        kw['output_crs'] = Spherical()
    if wrapping:
        kw['spatial_wrapping'] = wrapping
    if reorder:
        kw['spatial_reorder'] = True
    if nearest:
        kw['select_nearest'] = True
    if radius:
        kw['search_radius_mult'] = radius
    if geom_crs:
        kw['geom'] = [dict(q, crs=geom_crs()) for q in kw['geom']]
    ops = OcgOperations(dataset=made[0][0] if datasets == 1 else [m[0] for m in made], aggregate=aggregate, allow_empty=allow_empty,
                        agg_selection=agg_selection, **kw)
    groups = [[t] for t in times]
    if calc in ('mean', 'max', 'sum'):
        groups = [times] if grouping == ('all',) else [g for g in ([t for t in times if MONTH[t] == k] for k in (1, 2)) if g]
    boxes = [None] if not names or slc is not None else [list(names)] if agg_selection else [[n] for n in names]
    uids = [None] if boxes == [None] else [1] if agg_selection else [5 + k for k in range(len(names))]
    sm = made[0][2]
    # Bounds are removed when columns are reordered.
    moved = reorder and wrapping == 'wrap' and x0 + 104. > 180.
    point = lambda b, i, j: BOXES[b][0] <= LON[j] <= BOXES[b][2] and BOXES[b][1] <= LAT[i] <= BOXES[b][3]

    def hit(b, i, j):
        if sm[i, j]:
            return False
        if b is None:
            return True
        if nearest is not None:
            return (i, j) == tuple(nearest)
        if radius is not None:
            return (i, j) in (PLUS if radius > 0.3 else {(1, 1)})
        if moved or not bounds:
            return any(point(k, i, j) for k in b)
        return any(overlap(k, i, j) > 0 for k in b)

    wrapped = [q + x0 - 360. if wrapping == 'wrap' and q + x0 > 180. else q + x0 + 360. if wrapping == 'unwrap' and q + x0 < 0. else q + x0
               for q in LON[:nx]]
    empty = [not any(hit(b, i, j) for i in rows for j in cols) for b in boxes]
    if any(empty) and not allow_empty:
        try:
            ops.execute()
        except ExtentError:
            ok = True
        else:
            ok = False
        S.check(ok, 'an empty selection is an error')
        return
    ret = ops.execute()
    S.check(list(ret.children) == uids, 'one element per selection geometry')
    for b, uid, none in zip(boxes, uids, empty):
        for k, (f, ref, _) in enumerate(made):
            label = '' if datasets == 1 else 'data set %d' % k
            S.check(list(ret.children[uid].children) == ['fld%d' % j for j in range(datasets)], 'one field per data set')
            g = ret.get_element(field_name='fld%d' % k, container_ugid=uid)
            if none:
                S.check(g.is_empty, 'empty selection')
                continue
            keep = [(i, j) for i in rows for j in cols if hit(b, i, j)]
            r = [i for i in rows if min(p[0] for p in keep) <= i <= max(p[0] for p in keep)] if b else rows
            order = sorted(cols, key=lambda j: wrapped[j]) if moved else cols
            hits = [k for k, j in enumerate(order) if any(p[1] == j for p in keep)]
            c = order[min(hits):max(hits) + 1] if b else order
            weight = {p: sum(overlap(q, *p) for q in b) if clip and b else area(*p) for p in keep}
            lv = [None] if lev is None else lev
            for n, (v, m) in ref.items():
                at = lambda t, l, p: (None if p not in weight or m[(t,) + (() if l is None else (l,)) + p] else
                                      v[(t,) + (() if l is None else (l,)) + p])
                want = {}
                space = [(a, q) for a, i in enumerate(r) for q, j in enumerate(c)]
                for gi, group in enumerate(groups):
                    for li, l in enumerate(lv):
                        head = (gi,) + (() if l is None else (li,))
                        apply_calc = lambda x: x[0] if calc is None else monthly(S, calc, [q for q in x if q is not None]) \
                            if calc in ('mean', 'max', 'sum') else x[0]
                        if not aggregate:
                            for a, q in space:
                                want[head + (a, q)] = apply_calc([at(t, l, (r[a], c[q])) for t in group])
                        elif calc == 'sum' and calc_raw:
                            # Sums add cells up instead of averaging them.
                            parts = [q for q in (at(t, l, p) for t in group for p in weight) if q is not None]
                            want[head + (0,)] = S.sum_(parts) if parts else None
                        elif calc and calc_raw:
                            want[head + (0,)] = wmean([(apply_calc([at(t, l, p) for t in group]), w) for p, w in weight.items()])
                        else:
                            want[head + (0,)] = apply_calc([wmean([(at(t, l, p), w) for p, w in weight.items()]) for t in group])
                shape = (len(groups),) + (() if lev is None else (len(lev),)) + ((1,) if aggregate else (len(r), len(c)))
                name = n
                if calc in ('mean', 'max', 'sum'):
                    name = 'out' if not more else 'out_' + n
                if calc and calc not in ('mean', 'max', 'sum'):
                    S.check({d.name for d in g.data_variables} == {'a', 'b'} if isinstance(calc, list) else {d.name for d in g.data_variables} == {'a'},
                            'data variables')
                    compare(S, g['a'], {i: None if w is None else w + 1 for i, w in want.items()}, shape, label + 'a')
                    if isinstance(calc, list):
                        compare(S, g['b'], {i: None if w is None else 2 * w for i, w in want.items()}, shape, label + 'b')
                    continue
                S.check(name in [d.name for d in g.data_variables], 'data variable')
                compare(S, g[name], want, shape, label + name)
                if sample and calc:
                    S.check('n_' + name in g, 'sample size')
            # Coordinates.
            if calc is None or calc not in ('mean', 'max', 'sum'):
                S.check([float(t) for t in g.time.get_value()] == [DAYS[t] for t in times], 'times')
            elif grouping == ('month',):
                S.check([d.month for d in g.time.value_datetime] == [MONTH[q[0]] for q in groups], 'months')
            if lev is not None:
                S.check([float(q) for q in g.level.get_value()] == [q + 1. for q in lev], 'levels')
            if aggregate:
                total = sum(weight.values())
                S.check(abs(g.geom.get_value().flatten()[0].area - total) < 1e-9, 'union of the cells')
                if b:
                    S.check(g.geom.ugid.get_value().tolist() == [uid], 'identifier of the selection geometry')
            else:
                gx, gy = g.x.get_value(), g.y.get_value()
                if gx.ndim == 1:
                    gx, gy = np.meshgrid(gx, gy)
                S.check(gx.tolist() == [[wrapped[j] for j in c]] * len(r) and gy.tolist() == [[LAT[i]] * len(c) for i in r], 'coordinates')
                if clip and b:
                    gv, gm = g.geom.get_value(), g.geom.get_mask()
                    for a, i in enumerate(r):
                        for q, j in enumerate(c):
                            kept = not (gm is not None and gm[a, q])
                            S.check(kept == ((i, j) in weight), 'clipped cells')
                            if kept:
                                S.check(abs(gv[a, q].area - weight[i, j]) < 1e-9, 'clipped area')
            if b and not agg_selection:
                if radius is None and move == x0 and x0 == 0.:
                    S.check(ret.geoms[uid].equals(shape_of(b[0], move)), 'selection geometry')
                S.check(str(ret.properties[uid]['NAME']) == names[uid - 5] if 'NAME' in ret.properties[uid] else True, 'properties')


def tasks(tier):
    out = []

    def add(**kw):
        out.append((operations, kw))

    for clip in (False, True):
        for aggregate in (False, True):
            for g in ('one', 'edge', 'cell', 'all', 'right'):
                add(geom=g, clip=clip, aggregate=aggregate, nt=2, masked=3, smask=1 if g == 'one' else 0)
            add(geom=['one', 'edge', 'right'], clip=clip, aggregate=aggregate, nt=2)
            add(geom=['one', 'none', 'right'], clip=clip, aggregate=aggregate, nt=2, allow_empty=True)
            add(geom=['one', 'none'], clip=clip, aggregate=aggregate, nt=2)
            add(geom=['cell', 'right'], clip=clip, aggregate=aggregate, nt=2, agg_selection=True)
            for raw in (False, True):
                add(geom=['one', 'right'], clip=clip, aggregate=aggregate, calc='mean', calc_raw=raw, masked=2)
                add(geom='edge', clip=clip, aggregate=aggregate, calc='max', calc_raw=raw, masked=2, nt=3, nx=2, ny=2)
    for kw in ({'time_range': (0.5, 31.5)}, {'time_region': 2}, {'func': True}, {'time_region': 2, 'func': True}, {'time_range': (0.5, 40), 'time_region': 1}):
        add(masked=2, **kw)
        add(masked=2, geom=['one', 'right'], aggregate=True, **kw)
        add(masked=2, geom='one', calc='mean', **kw)
        add(masked=2, geom='one', calc='sum', aggregate=True, calc_raw=True, allow_empty=True, **kw)
    for kw in ({}, {'geom': 'one'}, {'geom': ['edge', 'right'], 'aggregate': True}):
        add(levels=2, level_range=(2, 4), nt=2, **kw)
        add(levels=2, snippet=True, nt=2, **kw)
        add(levels=2, nt=3, ny=2, calc='mean', **kw)
        add(datasets=2, nt=2, **kw)
        add(datasets=2, nt=3, ny=2, calc='mean', **kw)
        add(more=True, nt=2, **kw)
        add(more=True, nt=3, ny=2, calc='mean', **kw)
        add(calc='a=tas+1', grouping=None, nt=2, **kw)
        add(calc=['a=tas+1', 'b=2*tas'], grouping=None, nt=2, **kw)
        add(nt=2, output_crs=True, **kw)
        add(nt=2, smask=3, **kw)
        add(nt=3, calc='mean', sample=True, **kw)
        add(nt=4, calc='mean', grouping=('all',), **kw)
    add(slc=((1, 3), None, (0, 2), (1, 4)))
    add(levels=2, nt=2, slc=(None, (1, 2), (1, 2), None))
    add(nt=2, slc=(None, None, (1, 3), None), aggregate=True)
    add(aggregate=True, nt=2, masked=3)
    add(aggregate=True, calc='mean', calc_raw=True, masked=3)
    for g in ('point', 'edge point', 'out point', 'disc', 'triangle', ['triangle', 'point']):
        add(geom=g, nt=2, masked=3, smask=1)
        add(geom=g, nt=2, masked=3, aggregate=True, calc='mean', allow_empty=g == 'out point')
    for agg in (False, True):
        add(geom=['none', 'one'], nt=3, calc='mean', calc_raw=True, aggregate=agg, allow_empty=True)
        add(geom=['one', 'none'], nt=3, calc='mean', aggregate=agg, allow_empty=True)
    add(geom='cell', nt=2, nearest=(1, 1))
    add(geom='point', nt=2, radius=0.52)
    add(geom='point', nt=2, radius=0.52, aggregate=True)
    add(geom='point', nt=2, radius=0.1)
    for g in ('one', 'all', ['right', 'one']):
        add(geom=g, nt=2, bounds=False)
        add(geom=g, nt=2, geom_crs=Spherical)
    # Longitudes around 180 and selection geometries in the other domain.
    for kw in ({}, {'geom': ['right', 'all']}, {'geom': ['one', 'right', 'cell'], 'aggregate': True}, {'geom': ['all', 'one'], 'calc': 'mean', 'nt': 3},
               {'geom': ['one', 'right'], 'clip': True}):
        kw = dict({'nt': 2}, **kw)
        add(x0=78., wrapping='wrap', **kw)
        add(x0=78., **kw)
        add(x0=78., wrapping='unwrap', **kw)
        add(x0=-130., wrapping='unwrap', **kw)
        add(x0=-130., wrapping='wrap', **kw)
        add(x0=200., wrapping='wrap', **kw)
        if 'geom' in kw:
            add(x0=200., move=-160., **kw)
            add(x0=200., move=-160., wrapping='wrap', **kw)
            add(x0=-130., move=230., **kw)
            add(x0=-130., move=230., wrapping='unwrap', **kw)
        if not kw.get('aggregate') and not kw.get('clip'):
            add(x0=78., wrapping='wrap', reorder=True, **kw)
            add(x0=78., reorder=True, **kw)
            add(x0=79., wrapping='wrap', reorder=True, bounds=False, **kw)
    return out
