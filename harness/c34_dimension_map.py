"""C34: dimension maps survive conversion to and from plain dictionaries."""
from copy import deepcopy

from ocgis import DimensionMap, Variable
from ocgis.constants import DIMENSION_MAP_TEMPLATE, DMK, GridAbstraction, Topology
from ocgis.exc import DimensionMapError

FUNCTIONS = ['ocgis.driver.dimension_map.DimensionMap.{as_dict,from_dict,from_metadata,from_old_style_dimension_map,set_variable,set_bounds,set_crs,'
             'set_spatial_mask,set_group,set_property,set_driver,set_grid_abstraction,get_*,inquire_is_xyz,update,update_dimensions_from_metadata,__eq__}',
             'ocgis.driver.dimension_map.get_dmap_group']
BOUNDS = 'every combination of entries (two or three at a time) with and without bounds, zero to two dimensions, default or own attributes (any value), given as ' \
         'names or variables; every combination of mask, reference system, driver, grid abstraction and isomorphism; groups two deep; up to three topologies'
OUTSIDE = 'names and attribute names other than the ones used (the code does not look into them)'

AXES = (DMK.REALIZATION, DMK.TIME, DMK.LEVEL, DMK.Y, DMK.X)
DEFAULTS = {k: dict(v.get(DMK.ATTRS, {})) for k, v in DIMENSION_MAP_TEMPLATE.items()}


def fill_axis(S, dm, key, tag, objects, lean=False):
    """Set one entry in any way; the expected content, or None."""
    if not S.cbool(tag + '.set'):
        return None
    name = 'v_' + key
    e = {'variable': name, 'bounds': None, 'dimension': [], 'attrs': dict(DEFAULTS.get(key, {}))}
    kw = {}
    if S.cbool(tag + '.bounds'):
        e['bounds'] = kw['bounds'] = name + '_bounds'
    nd = S.cint(tag + '.ndim', 0, 1 if lean or objects else 2)
    if objects:
        a = S.real(tag + '.attr')
        v = Variable(name, value=S.array([1., 2.], 'f') if nd else S.array(1., 'f'), dimensions=['d_' + key] if nd else [], attrs={'a': a})
        if 'bounds' in kw and nd:
            v.set_bounds(Variable(name + '_bounds', value=S.array([[0., 1.], [1., 2.]], 'f'), dimensions=['d_' + key, 'bnds'], attrs={}))
            kw.pop('bounds')
        e['dimension'] = ['d_' + key][:nd]
        e['attrs'].update(v.attrs)
        dm.set_variable(key, v, **kw)
        return e
    if nd:
        e['dimension'] = ['d%d_%s' % (i, key) for i in range(nd)]
        kw['dimension'] = e['dimension'][0] if nd == 1 and S.cbool(tag + '.plain') else list(e['dimension'])
    if not lean and S.cbool(tag + '.attrs'):
        e['attrs'] = {'a': S.real(tag + '.attr'), 'b': 'text'}
        kw['attrs'] = dict(e['attrs'])
    dm.set_variable(key, name, **kw)
    return e


def same_attrs(S, a, b):
    return S.and_(sorted(a) == sorted(b), S.all_([S.eq(a[k], b[k]) if not isinstance(b[k], str) else (a[k] == b[k]) for k in b if k in a] + [True]))


def verify(S, dm, expected, label):
    for key, e in expected.items():
        if e is None:
            S.check(dm.get_variable(key) is None and dm.get_bounds(key) is None, label + ' unset')
            S.check(list(dm.get_dimension(key)) == [], label + ' unset dimension')
            continue
        S.check(dm.get_variable(key) == e['variable'], label + ' variable')
        S.check(dm.get_bounds(key) == e['bounds'], label + ' bounds')
        S.check(list(dm.get_dimension(key)) == e['dimension'], label + ' dimension')
        S.check(same_attrs(S, dm.get_attrs(key), e['attrs']), label + ' attributes')


def axes(S, keys, objects=False, peek=False):
    """Entries of the axes to a dictionary and back."""
    dm = DimensionMap()
    expected = {k: fill_axis(S, dm, k, k, objects) for k in keys}
    if peek:
        # Looking at entries adds nothing.
        verify(S, dm, expected, 'before')
        for k in keys:
            dm.get_attrs(k)
        dm.get_crs(), dm.get_spatial_mask(), dm.get_topology(Topology.LINE), dm.get_property(DMK.IS_ISOMORPHIC)
    dct = dm.as_dict()
    S.check(dct is not dm._storage, 'own dictionary')
    back = DimensionMap.from_dict(dct)
    verify(S, back, expected, 'read back')
    verify(S, dm, expected, 'original')
    S.check(back.get_crs() is None and back.get_spatial_mask() is None and not back.has_topology, 'nothing else')
    # Independent of each other.
    other = deepcopy(dm)
    for k in keys:
        other.set_variable(k, 'other', bounds='other_bounds', dimension='other_dim', attrs={'z': 1})
        other.get_attrs(k)['y'] = 2
        if k in dct:
            dct[k]['variable'] = 'changed'
            dct[k].setdefault('attrs', {})['c'] = 3
            dct[k].setdefault('dimension', []).append('changed')
    verify(S, dm, expected, 'independent of copies')
    verify(S, back, expected, 'independent of the dictionary')
    # A second round trip gives the same.
    verify(S, DimensionMap.from_dict(back.as_dict()), expected, 'second round trip')
    if not objects:
        for k in (DMK.X, DMK.Y, DMK.LEVEL):
            if expected.get(k) is not None:
                S.check(back.inquire_is_xyz('v_' + k) == k, 'axis of a variable')


def special_entries(S, dm, tag):
    """Entries that are no axes; the expected content."""
    e = {}
    e['crs'] = 'crs_' + tag if S.cbool(tag + 'crs') else None
    if e['crs']:
        dm.set_crs(e['crs'])
    e['mask'] = S.choice(tag + 'mask', ['', 'plain', 'attrs', 'object'])
    if e['mask']:
        own = {} if e['mask'] == 'plain' else {'a': S.real(tag + 'mask.attr'), 'description': 'mine'}
        e['mask_attrs'] = dict(DEFAULTS[DMK.SPATIAL_MASK], **own)
        if e['mask'] == 'object':
            dm.set_spatial_mask(Variable('m_' + tag, attrs=own))
        else:
            dm.set_spatial_mask('m_' + tag, **({'attrs': own} if own else {}))
    e['driver'] = S.choice(tag + 'driver', ['', 'netcdf-cf', 'csv'])
    if e['driver']:
        dm.set_driver(e['driver'])
    e['abstraction'] = S.choice(tag + 'abstraction', ['', GridAbstraction.POINT, GridAbstraction.POLYGON])
    if e['abstraction']:
        dm.set_grid_abstraction(e['abstraction'])
    e['iso'] = S.choice(tag + 'iso', [None, True, False])
    if e['iso'] is not None:
        dm.set_property(DMK.IS_ISOMORPHIC, e['iso'])
    return e


def verify_special(S, dm, e, tag, label):
    S.check(dm.get_crs() == e['crs'], label + ' reference system')
    S.check(dm.get_spatial_mask() == ('m_' + tag if e['mask'] else None), label + ' mask')
    if e['mask']:
        S.check(same_attrs(S, dm.get_attrs(DMK.SPATIAL_MASK), e['mask_attrs']), label + ' mask attributes')
    S.check(dm.get_driver() == (e['driver'] or 'netcdf-cf'), label + ' driver')
    S.check(dm.get_grid_abstraction() == (e['abstraction'] or GridAbstraction.AUTO), label + ' grid abstraction')
    S.check(dm.get_property(DMK.IS_ISOMORPHIC, 'unset') == ('unset' if e['iso'] is None else e['iso']), label + ' isomorphism')


def special(S):
    """The other entries to a dictionary and back."""
    dm = DimensionMap()
    e = special_entries(S, dm, 'r')
    x = {DMK.X: fill_axis(S, dm, DMK.X, 'x', False, lean=True)}
    back = DimensionMap.from_dict(dm.as_dict())
    for d, label in ((back, 'read back'), (dm, 'original')):
        verify_special(S, d, e, 'r', label)
        verify(S, d, x, label)


def groups(S, replace=False):
    """Groups of groups: each has its own map."""
    dm = DimensionMap()
    expected = {}
    paths = [None, ['a'], ['b'], ['a', 'b'], ['a', 'c', 'b']]
    for i, p in enumerate(paths):
        if p is None:
            d = dm
        elif not S.cbool('group%d' % i):
            continue
        else:
            d = DimensionMap()
            if len(p) == 1 and replace:
                first = DimensionMap()
                first.set_variable(DMK.X, 'first')
                dm.set_group(p, first)
        key = DMK.X if i % 2 else DMK.TIME
        name = 'v%d' % i
        d.set_variable(key, name, dimension='d%d' % i)
        if p is not None:
            dm.set_group(p, d)
        expected[i] = (key, name)
    for d, label in ((dm, 'original'), (DimensionMap.from_dict(dm.as_dict()), 'read back'), (deepcopy(dm), 'copy')):
        for i, (key, name) in expected.items():
            g = d.get_group(paths[i])
            S.check(g.get_variable(key) == name and list(g.get_dimension(key)) == ['d%d' % i], label + ' group')
            other = DMK.TIME if key == DMK.X else DMK.X
            S.check(g.get_variable(other) is None, label + ' nothing else in the group')
        for i, p in enumerate(paths):
            inner = any(q is not None and p is not None and q[:len(p)] == p for q in (paths[j] for j in expected))
            if i not in expected and not inner:
                try:
                    d.get_group(p)
                except DimensionMapError:
                    S.check(True, label + ' no such group')
                else:
                    S.check(False, label + ' no such group')


def topologies(S, look=False):
    """Maps of the topologies."""
    dm = DimensionMap()
    expected = {}
    for t in (Topology.POINT, Topology.LINE, Topology.POLYGON):
        if S.cbool('has.%s' % t):
            d = dm.get_topology(t, create=True)
            d.set_variable(DMK.X, 'x_%s' % t, dimension='n_%s' % t)
            d.set_variable(DMK.ELEMENT_NODE_CONNECTIVITY, 'c_%s' % t, attrs={'start_index': 1})
            expected[t] = d
    if look:
        for t in (Topology.POINT, Topology.LINE, Topology.POLYGON):
            S.check((dm.get_topology(t) is not None) == (t in expected), 'topology found')
    for d, label in ((dm, 'original'), (DimensionMap.from_dict(dm.as_dict()), 'read back'), (deepcopy(dm), 'copy')):
        S.check(d.has_topology == bool(expected), label + ' has topologies')
        S.check(set(d.get_available_topologies()) == set(expected), label + ' available topologies')
        for t in (Topology.POINT, Topology.LINE, Topology.POLYGON):
            s = d.get_topology(t)
            if t not in expected:
                S.check(s is None, label + ' no such topology')
                continue
            S.check(s.get_variable(DMK.X) == 'x_%s' % t and list(s.get_dimension(DMK.X)) == ['n_%s' % t], label + ' axis of the topology')
            S.check(s.get_variable(DMK.ELEMENT_NODE_CONNECTIVITY) == 'c_%s' % t and s.get_attrs(DMK.ELEMENT_NODE_CONNECTIVITY) == {'start_index': 1},
                    label + ' connectivity of the topology')
            S.check(d.inquire_is_xyz('x_%s' % t) == DMK.X, label + ' axis found')


def old_style(S):
    """Maps with one-letter axes."""
    odmap, expected = {}, {}
    for letter, key in (('R', DMK.REALIZATION), ('T', DMK.TIME), ('Z', DMK.LEVEL), ('Y', DMK.Y), ('X', DMK.X)):
        expected[key] = None
        if S.cbool(letter):
            odmap[letter] = {'variable': 'v_' + key}
            expected[key] = {'variable': 'v_' + key, 'bounds': None, 'dimension': [], 'attrs': dict(DEFAULTS.get(key, {}))}
            if S.cbool(letter + '.bounds'):
                odmap[letter]['bounds'] = expected[key]['bounds'] = 'b_' + key
            if S.cbool(letter + '.dim'):
                odmap[letter]['dimension'] = 'd_' + key
                expected[key]['dimension'] = ['d_' + key]
    verify(S, DimensionMap.from_old_style_dimension_map(odmap), expected, 'old style')


def metadata(S):
    """Dimensions of axes are taken from metadata where they are missing."""
    dm = DimensionMap()
    meta = {'variables': {}}
    expected = {}
    for key in AXES:
        expected[key] = e = fill_axis(S, dm, key, key, False, lean=True) if key in (DMK.TIME, DMK.X) else None
        if e is not None and S.cbool(key + '.meta'):
            dims = ['m%d_%s' % (i, key) for i in range(S.cint(key + '.metadims', 0, 2))]
            meta['variables']['v_' + key] = {'dimensions': dims}
            if not e['dimension']:
                e['dimension'] = dims
    dm.update_dimensions_from_metadata(meta)
    # Bounds given before are kept.
    verify(S, dm, expected, 'with metadata')


class Driver(object):
    """Makes a map with one axis named like the group."""

    @staticmethod
    def create_dimension_map(meta):
        ret = DimensionMap()
        ret.set_variable(DMK.X, meta['x'])
        return ret


def grouped_metadata(S):
    """Maps of groups of a source."""
    def node(name, depth):
        ret = {'x': 'x_' + name}
        if depth:
            subs = [k for k in 'ab' if S.cbool(name + k)]
            if subs:
                ret['groups'] = {k: node(name + k, depth - 1) for k in subs}
        return ret

    meta = node('', 2)
    dm = DimensionMap.from_metadata(Driver, meta)

    def walk(m, path):
        S.check(dm.get_group(path or None).get_variable(DMK.X) == m['x'], 'map of the group')
        have = set((dm.get_group(path or None)._storage.get(DMK.GROUPS) or {}).keys())
        S.check(have == set(m.get('groups', {})), 'groups of the group')
        for k, s in m.get('groups', {}).items():
            walk(s, path + [k])

    walk(meta, [])


def tasks(tier):
    deep = tier == 'thorough'
    out = [(special, {}), (groups, {}), (groups, {'replace': True}), (topologies, {}), (topologies, {'look': True}), (old_style, {}), (metadata, {}),
           (grouped_metadata, {})]
    pairs = [(DMK.X, DMK.Y), (DMK.TIME, DMK.LEVEL), (DMK.REALIZATION, DMK.X), (DMK.GEOM, DMK.TIME), (DMK.ATTRIBUTE_HOST, DMK.ELEMENT_NODE_CONNECTIVITY)]
    for p in pairs:
        out.append((axes, {'keys': p}))
        if p[0] not in (DMK.ATTRIBUTE_HOST,):
            out.append((axes, {'keys': p, 'objects': True}))
    out.append((axes, {'keys': (DMK.TIME, DMK.Y), 'peek': True}))
    if deep:
        out.append((axes, {'keys': (DMK.TIME, DMK.Y, DMK.X)}, 900))
        out.append((axes, {'keys': (DMK.LEVEL, DMK.Y, DMK.X), 'objects': True}, 900))
        out.append((axes, {'keys': (DMK.REALIZATION, DMK.TIME, DMK.GEOM)}, 900))
    return out
