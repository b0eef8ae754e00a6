"""Axis-aligned rectangles and points standing in for shapely geometries in symbolic runs.

Concrete replays use shapely itself.  The stand-ins implement the textbook predicates on points and non-degenerate
rectangles exactly (no rounding), so the code under test decides which geometries to build, test, keep or skip.
"""
import numpy as np
import shapely.geometry as sg
import shapely.prepared as sp
from shapely.geometry.base import BaseGeometry, BaseMultipartGeometry
from symex.engine import sym_and, sym_max, sym_min, sym_not, sym_or


def _fold(f, v):
    v = list(v)
    r = v[0]
    for i in v[1:]:
        r = f(r, i)
    return r


class Shape(BaseGeometry):
    """Base of the stand-ins; b holds (x0, y0, x1, y1)."""
    has_z = False
    is_empty = False
    is_valid = True
    point = False

    def __init__(self, b):
        self.__dict__['b'] = tuple(b)

    def __del__(self):
        pass

    def __setattr__(self, k, v):
        self.__dict__[k] = v

    def __reduce__(self):
        return (_make, (type(self), dict(self.__dict__)))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __bool__(self):
        return not self.is_empty

    def __repr__(self):
        return '{}{}'.format(type(self).__name__, self.__dict__.get('b'))

    __hash__ = object.__hash__
    __str__ = __repr__
    geom_type = 'Shape'
    type = property(lambda self: self.geom_type)
    bounds = property(lambda self: self.b)
    envelope = property(lambda self: self)
    x = property(lambda self: self.b[0])
    y = property(lambda self: self.b[1])
    area = property(lambda self: (self.b[2] - self.b[0]) * (self.b[3] - self.b[1]))
    parts = property(lambda self: [self])
    wkb = property(lambda self: self)

    @property
    def centroid(self):
        return PointShape((self.b[0] + self.b[2]) / 2, (self.b[1] + self.b[3]) / 2)

    def buffer(self, v, **kw):
        x0, y0, x1, y1 = self.b
        return RectShape.of(x0 - v, y0 - v, x1 + v, y1 + v)

    def distance(self, o):
        """Square of the distance of two points (only used to compare distances)."""
        assert self.point and o.point
        return (self.x - o.x) * (self.x - o.x) + (self.y - o.y) * (self.y - o.y)

    def intersects(self, o):
        return sym_or(*[meets(a, b) for a in self.parts for b in o.parts])

    def touches(self, o):
        return sym_and(self.intersects(o), sym_not(sym_or(*[overlaps(a, b) for a in self.parts for b in o.parts])))

    def intersection(self, o):
        out = []
        for a in self.parts:
            for b in o.parts:
                p = cut(a, b)
                if p is not None:
                    out.append(p)
        if not out:
            return EmptyShape()
        if len(out) == 1:
            return out[0]
        if all(p.point for p in out):
            return MultiPointShape(out)
        return (MultiRect if all(isinstance(p, RectShape) for p in out) else CollectionShape)(out)


def _make(cls, d):
    r = cls.__new__(cls)
    r.__dict__.update(d)
    return r


def cut(a, b):
    """Intersection of two parts; None if it is empty.  Forks on the shape of the result."""
    if not meets(a, b):
        return None
    if a.point or b.point:
        return a if a.point else b
    a, b = a.b, b.b
    r = (sym_max(a[0], b[0]), sym_max(a[1], b[1]), sym_min(a[2], b[2]), sym_min(a[3], b[3]))
    if r[0] < r[2] and r[1] < r[3]:
        return RectShape.of(*r)
    if r[0] < r[2] or r[1] < r[3]:
        return LineShape(r)
    return PointShape(r[0], r[1])


class PointShape(Shape):
    point = True
    geom_type = 'Point'

    def __init__(self, *xy):
        if len(xy) == 1:
            xy = xy[0]
        super(PointShape, self).__init__((xy[0], xy[1], xy[0], xy[1]))

    def __array__(self, *a, **k):
        return np.array([self.x, self.y], dtype=object)


class Exterior(object):
    def __init__(self, coords):
        self.coords = coords


class RectShape(Shape):
    """A rectangle with positive sides, given by its corners in any order."""
    geom_type = 'Polygon'

    def __init__(self, coords=None, *args):
        if isinstance(coords, RectShape):
            b = coords.b
        else:
            c = np.array(coords, dtype=object)
            x, y = list(c[:, 0]), list(c[:, 1])
            b = _fold(sym_min, x), _fold(sym_min, y), _fold(sym_max, x), _fold(sym_max, y)
        super(RectShape, self).__init__(b)

    @classmethod
    def of(cls, *b):
        return _make(cls, {'b': tuple(b)})

    @property
    def exterior(self):
        x0, y0, x1, y1 = self.b
        return Exterior([(x1, y0), (x1, y1), (x0, y1), (x0, y0), (x1, y0)])


class EmptyShape(RectShape):
    is_empty = True
    area = 0.0

    def __init__(self):
        self.__dict__['b'] = ()

    parts = property(lambda self: [])

    @property
    def exterior(self):
        return Exterior([])


class LineShape(Shape):
    geom_type = 'LineString'
    area = 0.0


class MultiBase(Shape, BaseMultipartGeometry):
    def __init__(self, shapes):
        shapes = [i for s in shapes for i in (s.parts if isinstance(s, Shape) else [s])]
        self.check(shapes)
        bs = [s.b for s in shapes]
        self.__dict__.update(shapes=shapes, b=(_fold(sym_min, [i[0] for i in bs]), _fold(sym_min, [i[1] for i in bs]),
                                               _fold(sym_max, [i[2] for i in bs]), _fold(sym_max, [i[3] for i in bs])))

    @staticmethod
    def check(shapes):
        pass

    parts = property(lambda self: self.shapes)
    geoms = parts
    area = property(lambda self: sum(s.area for s in self.shapes))

    def __iter__(self):
        return iter(self.shapes)

    def __len__(self):
        return len(self.shapes)

    def __getitem__(self, i):
        return self.shapes[i]


class MultiRect(MultiBase):
    geom_type = 'MultiPolygon'

    @staticmethod
    def check(shapes):
        if any(not isinstance(s, RectShape) for s in shapes):
            raise TypeError('not a polygon')


class CollectionShape(MultiBase):
    geom_type = 'GeometryCollection'


class MultiPointShape(MultiBase):
    geom_type = 'MultiPoint'


def meets(a, b):
    """Closed sets share a point."""
    a, b = a.b, b.b
    return sym_and(a[0] <= b[2], b[0] <= a[2], a[1] <= b[3], b[1] <= a[3])


def overlaps(a, b):
    """Interiors share a point (the interior of a point is the point itself)."""
    if a.point and b.point:
        return meets(a, b)
    a, b = a.b, b.b
    return sym_and(a[0] < b[2], b[0] < a[2], a[1] < b[3], b[1] < a[3])


def box_stub(x0, y0, x1, y1, ccw=True):
    return RectShape.of(x0, y0, x1, y1)


def prep_stub(g):
    return g


SWAPS = [(sg.Point, PointShape), (sg.box, box_stub), (sg.Polygon, RectShape), (sg.MultiPolygon, MultiRect),
         (sg.MultiPoint, MultiPointShape), (sg.LineString, LineShape), (sp.prep, prep_stub)]


def make_box(S, *b):
    return RectShape.of(*b) if S.symbolic else sg.box(*[float(i) for i in b])


def make_multi(S, boxes):
    return MultiRect([RectShape.of(*b) for b in boxes]) if S.symbolic else sg.MultiPolygon([sg.box(*map(float, b)) for b in boxes])


def make_point(S, x, y):
    return PointShape(x, y) if S.symbolic else sg.Point(float(x), float(y))


def sym_box(S, name, lo=-1000, hi=1000, ylo=None, yhi=None, flat=False):
    b = [S.real('%s.%s' % (name, k), *((lo, hi) if k[0] == 'x' or ylo is None else (ylo, yhi))) for k in ('x0', 'y0', 'x1', 'y1')]
    S.assume(b[0] <= b[2] if flat else b[0] < b[2])
    S.assume(b[1] <= b[3] if flat else b[1] < b[3])
    return b


def box_meets(S, a, b):
    return S.and_(a[0] <= b[2], b[0] <= a[2], a[1] <= b[3], b[1] <= a[3])


def box_overlaps(S, a, b):
    return S.and_(a[0] < b[2], b[0] < a[2], a[1] < b[3], b[1] < a[3])


def part_bounds(geom):
    """Bounds of the polygon or point parts of a (real or stand-in) geometry."""
    if isinstance(geom, BaseMultipartGeometry):
        return [tuple(g.bounds) for g in geom if not g.is_empty]
    return [] if geom.is_empty else [tuple(geom.bounds)]
