PO = 'Patro/GeometryEngine/Polygon.py'
LI = 'Patro/GeometryEngine/Line.py'
SE = 'Patro/GeometryEngine/Segment.py'
TR = 'Patro/GeometryEngine/Triangle.py'
TF = 'Patro/GeometryEngine/Transformation.py'
RE = 'Patro/GeometryEngine/Rectangle.py'

BUGS = [
    dict(id='P05-box-left', property='P05',
         edits=[(LI, '            x_min, y_min = left, self.get_y_from_x(left)', '            x_min, y_min = left, self.get_y_from_x(max(left, self.p.x))')],
         needs='a line of small slope whose point is on the right of the left side of the box',
         what='the left end of a line clipped by a box has the ordinate of the point of the line',
         demo='''
         from Patro.GeometryEngine.Line import Line2D
         from Patro.GeometryEngine.Vector import Vector2D
         box = Vector2D(0, 0).bounding_box | Vector2D(10, 10).bounding_box if hasattr(Vector2D(0, 0), 'bounding_box') else None
         from Patro.Common.Math.Functions import sign
         from IntervalArithmetic import Interval2D
         p, q = Line2D(Vector2D(4, 2), Vector2D(2, 1)).get_x_y_from_bounding_box(Interval2D((0, 10), (0, 10)))
         assert (p.x, p.y) == (0, 0), p
         assert (q.x, q.y) == (10, 5), q
         '''),
    dict(id='P05-orthogonal-abscissa', property='P05',
         edits=[(LI, '        point = self.interpolate(s)\n        vector = self.v.normal', '        point = self.p + self.vn * s\n        vector = self.v.normal')],
         needs='orthogonal_line_at_abscissa of a line whose vector is not a unit vector',
         what='the abscissa is taken as a distance',
         demo='''
         from Patro.GeometryEngine.Line import Line2D
         from Patro.GeometryEngine.Vector import Vector2D
         p = Line2D(Vector2D(0, 0), Vector2D(2, 0)).orthogonal_line_at_abscissa(3).p
         assert (p.x, p.y) == (6, 0), p
         '''),
    dict(id='P05-sorted-abscissae', property='P05',
         edits=[(LI, 'for s0, s1 in pairwise(s_list)]', 'for s0, s1 in pairwise(sorted(s_list))]')],
         needs='abscissae which are not sorted',
         what='the distances are those of the sorted abscissae',
         demo='''
         from Patro.GeometryEngine.Line import Line2D
         from Patro.GeometryEngine.Vector import Vector2D
         d = Line2D(Vector2D(0, 0), Vector2D(2, 0)).compute_distance([0, 3, 1])
         assert [abs(x) for x in d] == [6, 4], d
         '''),
    dict(id='P06-share-stop', property='P06',
         edits=[(SE, '        if (self._p0 == segment2._p0 or\n            self._p0 == segment2._p1):', '        if (self._p0 == segment2._p0 or\n            self._p1 == segment2._p0):')],
         needs='two segments, the second one ends where the first starts, or starts where it ends',
         what='the shared vertex is the other end of the segment, or is not found',
         demo='''
         from Patro.GeometryEngine.Segment import Segment2D
         from Patro.GeometryEngine.Vector import Vector2D
         v = Segment2D(Vector2D(0, 0), Vector2D(1, 0)).share_vertex_with(Segment2D(Vector2D(1, 0), Vector2D(3, 3)))
         assert v is not None and (v.x, v.y) == (1, 0), v
         '''),
    dict(id='P06-touch-side', property='P06',
         edits=[(SE, '                or (ccw11 * ccw12 * ccw21 * ccw22 == 0))', '                or (ccw11 * ccw12 == 0))')],
         needs='an end of the first segment lies inside the second one',
         what='the segments are reported as disjoint, depending on which one is asked',
         demo='''
         from Patro.GeometryEngine.Segment import Segment2D
         from Patro.GeometryEngine.Vector import Vector2D
         a = Segment2D(Vector2D(1, 0), Vector2D(1, 2))
         b = Segment2D(Vector2D(0, 0), Vector2D(2, 0))
         assert b.intersect_with(a)
         assert a.intersect_with(b)
         '''),
    dict(id='P07-axes-aligned', property='P07',
         edits=[(PO, '            if Iy >= Ix:\n                self._major_axis_angle = 0', '            if Iy >= 0:\n                self._major_axis_angle = 0')],
         needs='a polygon without product of inertia which is higher than wide',
         what='the major axis is the short one',
         demo='''
         from Patro.GeometryEngine.Polygon import Polygon2D
         from Patro.GeometryEngine.Vector import Vector2D
         p = Polygon2D(*[Vector2D(x, y) for x, y in ((-1, -3), (1, -3), (1, 3), (-1, 3))])
         assert p.major_axis >= p.minor_axis, (p.major_axis, p.minor_axis)
         assert p.major_axis_angle == 90, p.major_axis_angle
         '''),
    dict(id='P07-scalene', property='P07',
         edits=[(TR, '                self._p21 != self._p02 and\n                self._p02 != self._p10)', '                self._p21 != self._p02)')],
         needs='an isosceles triangle whose first and last sides are equal',
         what='it is reported as scalene',
         demo='''
         from Patro.GeometryEngine.Triangle import Triangle2D
         from Patro.GeometryEngine.Vector import Vector2D
         t = Triangle2D(Vector2D(0, 2), Vector2D(-1, 0), Vector2D(1, 0))
         assert t.is_isosceles and not t.is_scalene
         '''),
    dict(id='P07-last-turn', property='P07',
         edits=[(PO, '        number_of_edges = len(edges)\n        # a polygon is convex', '        number_of_edges = len(edges) - 1\n        # a polygon is convex')],
         needs='a concave polygon whose only reflex vertex is at the turn the loop now skips',
         what='it is reported as convex, depending on the starting vertex',
         demo='''
         from Patro.GeometryEngine.Polygon import Polygon2D
         from Patro.GeometryEngine.Vector import Vector2D
         points = [(0, 0), (4, 0), (4, 4), (2, 1)]
         for k in range(4):
             p = Polygon2D(*[Vector2D(q) for q in points[k:] + points[:k]])
             assert p.is_concave, k
         '''),
    dict(id='P08-convex-shortcut', property='P08',
         edits=[(PO, '        return self._winding_number_test(point)', '''        # the point is on the left of each edge
        return all(edge.side_of(point) >= 0 for edge in self.edges) if self._is_convex else self._winding_number_test(point)''')],
         needs='a clockwise convex polygon whose convexity was asked before',
         what='no point is inside of it',
         demo='''
         from Patro.GeometryEngine.Polygon import Polygon2D
         from Patro.GeometryEngine.Vector import Vector2D
         p = Polygon2D(*[Vector2D(x, y) for x, y in ((0, 0), (0, 2), (2, 2), (2, 0))])
         assert p.is_point_inside(Vector2D(1, 1))
         assert p.is_convex
         assert p.is_point_inside(Vector2D(1, 1))
         '''),
    dict(id='P09-quadrilateral', property='P09',
         edits=[(PO, '        if self._is_convex:\n            return self\n', '        if self._is_convex or self.number_of_points <= 4:\n            return self\n')],
         needs='the hull of a concave quadrilateral',
         what='the hull of a concave quadrilateral is itself',
         demo='''
         from Patro.GeometryEngine.Polygon import Polygon2D
         from Patro.GeometryEngine.Vector import Vector2D
         p = Polygon2D(*[Vector2D(x, y) for x, y in ((0, 0), (4, 0), (1, 1), (0, 4))])
         assert len(list(p.convex_hull().points)) == 3
         '''),
    dict(id='P09-triangle-list', property='P09',
         edits=[(PO, '    if as_polygon and len(_convex_hull) >= 3:', '    if as_polygon and len(_convex_hull) > 3:')],
         needs='points whose hull is a triangle',
         what='the hull is a list instead of a polygon',
         demo='''
         from Patro.GeometryEngine.Polygon import Polygon2D, convex_hull
         from Patro.GeometryEngine.Vector import Vector2D
         assert isinstance(convex_hull([Vector2D(x, y) for x, y in ((0, 0), (4, 0), (1, 1), (0, 4))]), Polygon2D)
         '''),
]

BUGS += [
    dict(id='P02-shared-array', property='P02',
         edits=[(TF, '        self._m = np.array(array)\n', '        self._m = np.asarray(array)\n')],
         needs='a transformation built from another one, then modified through its parts',
         what='both transformations share their array',
         demo='''
         from Patro.GeometryEngine.Transformation import AffineTransformation2D
         from Patro.GeometryEngine.Vector import Vector2D
         a = AffineTransformation2D.Translation(Vector2D(1, 2))
         b = AffineTransformation2D(a)
         b.translation_part[...] = (5, 6)
         p = a * Vector2D(0, 0)
         assert (p.x, p.y) == (1, 2), p
         '''),
    dict(id='P02-length-sign', property='P02',
         edits=[(TF, '                return abs(self._m[0,0]) * obj', '                return self._m[0,0] * obj')],
         needs='a length transformed by a reflection or a negative scale',
         what='the length becomes negative',
         demo='''
         from Patro.GeometryEngine.Transformation import AffineTransformation2D
         assert AffineTransformation2D.Scale(-2, -2) * 3 == 6
         '''),
]
