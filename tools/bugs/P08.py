G = 'Patro/GeometryEngine/Polygon.py'
T = 'Patro/GeometryEngine/Triangle.py'
R = 'Patro/GeometryEngine/Rectangle.py'
BUGS = [
    dict(id='P08-level', property='P08',
         edits=[(G, "                if edge.p1.y <= y: #  downward crossing", "                if edge.p1.y < y: #  downward crossing")],
         needs='a point level with a vertex of the polygon',
         what='a ray that goes through a vertex is miscounted',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D as V
         from Patro.GeometryEngine.Polygon import Polygon2D
         p = Polygon2D(V(0, 0), V(2, -2), V(4, 0), V(2, 2))
         assert p.is_point_inside(V(1, 0)) and not p.is_point_inside(V(-1, 0))
         '''),
    dict(id='P08-same-side', property='P08',
         edits=[(T, "            same_side(point, self._p2, self._p0, self._p1)", "            same_side(point, self._p2, self._p1, self._p1)")],
         needs='a point beyond the first edge of a triangle only',
         what='a point beyond the first edge of a triangle is reported as inside',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D as V
         from Patro.GeometryEngine.Triangle import Triangle2D
         t = Triangle2D(V(0, 0), V(4, 0), V(2, 3))
         assert not t.is_point_inside(V(2, -1))
         '''),
    dict(id='P08-corner', property='P08',
         edits=[(R, "        return (point.x in bounding_box.x and\n                point.y in bounding_box.y)",
                 "        return (self._p0.x <= point.x <= self._p1.x and\n                point.y in bounding_box.y)")],
         needs='a rectangle whose first corner is on the right',
         what='no point is inside a rectangle whose first corner is on the right',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D as V
         from Patro.GeometryEngine.Rectangle import Rectangle2D
         assert Rectangle2D(V(4, 0), V(0, 4)).is_point_inside(V(1, 1))
         '''),
]
