CO = 'Patro/GeometryEngine/Conic.py'
PA = 'Patro/GeometryEngine/Path.py'
PO = 'Patro/GeometryEngine/Polygon.py'
PT = 'Patro/GraphicEngine/Painter/Painter.py'
AH = 'Patro/GeometryEngine/Shape/ArrowHead.py'
MI = 'Patro/GeometryEngine/Mixin.py'
BB = 'Patro/GeometryEngine/BoundingBox.py'
BUGS = [
    dict(id='P12-minor-sign', property='P12',
         edits=[(CO, '                distance = abs(y1 - e1)\n', '                distance = y1 - e1\n')],
         needs='an ellipse wider than high and a point of its minor axis inside it',
         what='the distance is negative for a point of the minor axis inside the ellipse',
         demo='''
         from Patro.GeometryEngine.Conic import Ellipse2D
         from Patro.GeometryEngine.Vector import Vector2D
         e = Ellipse2D(Vector2D(0, 0), 4, 2)
         assert abs(e.distance_to_point(Vector2D(0, 1)) - 1) < 1e-9
         '''),
    dict(id='P12-matrix-center', property='P12',
         edits=[(CO, '        F = A*xc2 + B*xc*yc + C*yc2 - a2*b2\n', '        F = A*xc2 + 2*B*xc*yc + C*yc2 - a2*b2\n')],
         needs='an inclined ellipse whose centre is on none of the axes',
         what='constant coefficient of the matrix of the conic',
         demo='''
         from Patro.GeometryEngine.Conic import Ellipse2D
         from Patro.GeometryEngine.Vector import Vector2D
         import numpy as np
         e = Ellipse2D(Vector2D(3, 2), 4, 2, 30)
         p = e.point_at_angle(50)
         v = np.array((p.x, p.y, 1))
         assert abs(v @ e.matrix() @ v) < 1e-6
         '''),
    dict(id='P12-bezier-third', property='P12',
         edits=[(CO, 'number_of_segments = math.ceil(abs(angle_span / 90.001))', 'number_of_segments = max(1, round(abs(angle_span / 90)))')],
         needs='an arc whose span is between 90 and 135 degrees',
         what='a single curve approximates more than a quarter',
         demo='''
         from Patro.GeometryEngine.Conic import Ellipse2D, AngularDomain
         from Patro.GeometryEngine.Vector import Vector2D
         e = Ellipse2D(Vector2D(0, 0), 1, 1, 0, AngularDomain(0, 134))
         worst = max(abs(c.point_at_t(t/50).magnitude - 1) for c in e.to_bezier() for t in range(51))
         assert worst < 1e-3, worst
         '''),
    dict(id='P12-svg-reuse', property='P12',
         edits=[(CO, '            radius_x2 = radius_x**2\n            radius_y2 = radius_y**2\n\n        # step 2',
                     '            radius_x2 = radius_x**2\n            radius_y2 = radius_x2\n\n        # step 2')],
         needs='an arc from end points too far for its radii, which are different',
         what='the centre is computed with a wrong vertical radius',
         demo='''
         from Patro.GeometryEngine.Conic import Ellipse2D
         from Patro.GeometryEngine.Vector import Vector2D
         e = Ellipse2D.svg_arc(Vector2D(0, 0), Vector2D(10, 4), 2, 1, 0, False, True)
         assert (e.start_point - Vector2D(0, 0)).magnitude < 1e-4, e.start_point
         assert (e.stop_point - Vector2D(10, 4)).magnitude < 1e-4, e.stop_point
         '''),
    dict(id='P12-circle-frame', property='P12',
         edits=[(CO, '            points = [self.point_from_ellipse_frame(point) for point in points]\n' if False else
                     '        points = [self.point_from_ellipse_frame(point) for point in points]\n',
                     '        points = [self._center + point for point in points] if self._radius_x == self._radius_y else [self.point_from_ellipse_frame(point) for point in points]\n')],
         needs='an ellipse with equal radii and a non-null angle',
         what='the intersections are not rotated back',
         demo='''
         from Patro.GeometryEngine.Conic import Ellipse2D
         from Patro.GeometryEngine.Segment import Segment2D
         from Patro.GeometryEngine.Vector import Vector2D
         e = Ellipse2D(Vector2D(0, 0), 5, 5, 30)
         for p in e.intersect_segment(Segment2D(Vector2D(-10, 3), Vector2D(10, 3))):
             assert abs(p.y - 3) < 1e-9, p
         '''),
    dict(id='P18-close-cast', property='P18',
         edits=[(PA, '''        path = PathSegment(self._path, self._index, self.offset, radius, absolute=False)

        if close:
            path.close(self._radius)
''', '''        path = PathSegment(self._path, self._index, self.offset, radius, absolute=False)

        if close:
            path.radius = self._radius
''')],
         needs='a path which starts with a diagonal side, closed with a rounded corner, then transformed',
         what='the corner of the closure is lost or fails after a transformation',
         demo='''
         from Patro.GeometryEngine.Path import Path2D
         from Patro.GeometryEngine.Vector import Vector2D
         p = Path2D(Vector2D(0, 0))
         p.north_east_to(10)
         p.line_to(Vector2D(10, -10))
         p.line_to(Vector2D(0, -5), absolute=True)
         p.close(radius=1, close_radius=1)
         q = p.clone().transform(__import__('Patro.GeometryEngine.Transformation', fromlist=['x']).AffineTransformation2D.Translation(Vector2D(5, 5)))
         a, b = p[0].bulge_geometry, q[0].bulge_geometry
         assert (b.center - a.center - Vector2D(5, 5)).magnitude < 1e-6
         '''),
    dict(id='P17-frame-hv', property='P17',
         edits=[(PA, '''        path = PathSegment(self._path, self._index, self.stop_point, radius, absolute=True)
''', '''        path = PathSegment(self._path, self._index, self.offset if hasattr(self, 'offset') else self.stop_point, None, absolute=True)
''')],
         needs='an absolute horizontal or vertical side with a rounded corner, then a transformation',
         what='the corner before an absolute horizontal or vertical side is sharp after a transformation',
         demo='''
         from Patro.GeometryEngine.Path import Path2D
         from Patro.GeometryEngine.Vector import Vector2D
         from Patro.GeometryEngine.Transformation import AffineTransformation2D
         p = Path2D(Vector2D(0, 0))
         p.line_to(Vector2D(10, 10))
         p.horizontal_to(30, radius=2, absolute=True)
         q = p.clone().transform(AffineTransformation2D.Translation(Vector2D(5, 5)))
         assert q[1].radius == 2
         '''),
    dict(id='P40-aliased', property='P40',
         edits=[(AH, '        self._direction = Vector2D(direction).normalise()\n', '        self._direction = direction.normalise()\n')],
         needs='a direction whose length is not one and which is used after',
         what='the direction given by the caller is normalised in place',
         demo='''
         from Patro.GeometryEngine.Shape.ArrowHead import TriangularHead
         from Patro.GeometryEngine.Vector import Vector2D
         d = Vector2D(3, 4)
         TriangularHead(Vector2D(0, 0), d, 2, 1)
         assert d.x == 3 and d.y == 4
         '''),
    dict(id='P40-angle-half', property='P40',
         edits=[(AH, '        return 2 * Vector2D(self._length, self._width).orientation\n', '        return Vector2D(self._length, 2*self._width).orientation\n')],
         needs='a head; for thin ones the difference is small',
         what='the angle is the one of a head twice as wide with one side',
         demo='''
         from Patro.GeometryEngine.Shape.ArrowHead import TriangularHead
         from Patro.GeometryEngine.Vector import Vector2D
         assert abs(TriangularHead(Vector2D(0, 0), Vector2D(1, 0), 2, 2).angle - 90) < 1e-9
         '''),
    dict(id='P40-one-curve', property='P40',
         edits=[(AH, '''            else: # only right
                controls1 = (self.right_curved_point, self.right_point)
                vertices = (self.back_tip_point,)
''', '''            else: # only right
                controls1 = (self.right_curved_point, self.right_point)
                vertices = (self.offseted_back_tip_point,) if self._width > self._length else (self.tip_point - self._direction * self._width,)
''')],
         needs='a curvy head with the right side only, longer than wide and without offset',
         what='the outline goes back to the axis at the width instead of the length',
         demo='''
         from Patro.GeometryEngine.Shape.ArrowHead import TriangularCurvyHead
         from Patro.GeometryEngine.Vector import Vector2D
         h = TriangularCurvyHead(Vector2D(0, 0), Vector2D(1, 0), 4, 1, .1, left_side=False)
         assert (h[1].stop_point - Vector2D(-4, 0)).magnitude < 1e-9
         '''),
    dict(id='P34-square-area', property='P34',
         edits=[(PT, '        number_of_rows = ceil_int(self._bounding_box.y.length / area_vector.y)\n',
                     '        number_of_rows = ceil_int(self._bounding_box.y.length / max(area_vector.x, area_vector.y))\n')],
         needs='a paper in landscape and a drawing higher than a page',
         what='rows are missing on papers wider than high',
         demo='''
         from Patro.GraphicEngine.Painter.Painter import Tiler
         from Patro.GraphicStyle import Colors
         from IntervalArithmetic import Interval2D
         class P:
             width, height, margin = 297, 210, 10
         box = Interval2D((0, 10), (0, 60))
         top = max(i.y.sup for i, r, c in Tiler(box, P(), margin=0))
         assert top >= 60, top
         '''),
    dict(id='P09-lowest-key', property='P09',
         edits=[(PO, '        return p0.x - p1.x if (p0.y == p1.y) else p0.y - p1.y\n',
                     '        return p0.x - p1.x if abs(p0.y - p1.y) < 1e-3 else p0.y - p1.y\n')],
         needs='points whose lowest ordinates differ by less than a thousandth',
         what='the pivot is not the lowest point',
         demo='''
         from Patro.GeometryEngine.Polygon import convex_hull
         from Patro.GeometryEngine.Vector import Vector2D
         pts = [Vector2D(0, 9e-4), Vector2D(1, 0), Vector2D(-5, 11e-4), Vector2D(5, 10)]
         hull = convex_hull(pts)
         assert hull.number_of_points == 3
         '''),
    dict(id='P04-first-box', property='P04',
         edits=[(BB, '            bounding_box |= point.bounding_box\n',
                     '            box = point.bounding_box\n            if box.x.inf < bounding_box.x.inf or box.x.sup > bounding_box.x.sup or box.y.sup > bounding_box.y.sup:\n                bounding_box |= box\n')],
         needs='a list of points whose only lower point is between the others horizontally',
         what='a point that is below the box and neither left, right nor above it is ignored',
         demo='''
         from Patro.GeometryEngine.BoundingBox import bounding_box_from_points
         from Patro.GeometryEngine.Vector import Vector2D
         b = bounding_box_from_points([Vector2D(0, 0), Vector2D(10, 0), Vector2D(5, -7)])
         assert b.y.inf == -7
         '''),
    dict(id='P11-closed-length', property='P11',
         edits=[(MI, '        if self.is_closed:\n            return 2*pi\n', '        if self.is_over_closed:\n            return 2*pi\n')] if False else
               [(MI, '        return self.span >= 360\n', '        return self.span == 360\n')],
         needs='an arc whose domain spans more than a turn',
         what='an arc of more than a turn is not closed',
         demo='''
         from Patro.GeometryEngine.Conic import Circle2D, AngularDomain
         from Patro.GeometryEngine.Vector import Vector2D
         import math
         c = Circle2D(Vector2D(0, 0), 1, domain=AngularDomain(0, 400))
         assert abs(c.perimeter - 2*math.pi) < 1e-9
         '''),
    dict(id='P11-tangent-frame', property='P11',
         edits=[(CO, '        angle = math.degrees(distance / self._radius)\n        return self.point_at_angle(angle)\n',
                     '        angle = math.degrees(distance / self._radius) % 180\n        return self.point_at_angle(angle)\n')],
         needs='a distance longer than half of the perimeter',
         what='the point at distance wraps after half a turn',
         demo='''
         from Patro.GeometryEngine.Conic import Circle2D
         from Patro.GeometryEngine.Vector import Vector2D
         import math
         p = Circle2D(Vector2D(0, 0), 1).point_at_distance(3*math.pi/2)
         assert abs(p.y + 1) < 1e-9, p
         '''),
]
