G = 'Patro/GeometryEngine/Polygon.py'
T = 'Patro/GeometryEngine/Triangle.py'
BUGS = [
    dict(id='P07-signed-barycenter', property='P07',
         edits=[(G, "            factor = 1 / (6*area)\n", "            factor = 1 / (6*abs(area))\n")],
         needs='a clockwise polygon',
         what='the barycentre of a clockwise polygon is mirrored about the origin',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D as V
         from Patro.GeometryEngine.Polygon import Polygon2D
         p = Polygon2D(V(1, 1), V(1, 3), V(3, 3), V(3, 1))
         assert abs(p.barycenter.x - 2) < 1e-9
         '''),
    dict(id='P07-concave-flag', property='P07',
         edits=[(G, "    def is_concave(self):\n        return not self.is_convex", "    def is_concave(self):\n        return self._is_convex is False")],
         needs='asking for concavity before convexity',
         what='a concave polygon is not reported as concave until its convexity has been asked',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D as V
         from Patro.GeometryEngine.Polygon import Polygon2D
         p = Polygon2D(V(0, 0), V(4, 0), V(1, 1), V(0, 4))
         assert p.is_concave
         '''),
    dict(id='P07-perimeter-cast', property='P07',
         edits=[(T, "        return self._p10 + self._p21 + self._p02", "        return 2*self._p10 + self._p21 if self._p10 == self._p21 else self._p10 + self._p21 + self._p02")],
         needs='a triangle isosceles at its second vertex',
         what='the perimeter of a triangle isosceles at its second vertex is computed as if it were equilateral',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D as V
         from Patro.GeometryEngine.Triangle import Triangle2D
         t = Triangle2D(V(-3, 0), V(0, 4), V(3, 0))
         assert abs(t.perimeter - 16) < 1e-9
         '''),
]
