C='Patro/GeometryEngine/Conic.py'; M='Patro/GeometryEngine/Mixin.py'
BUGS=[
 dict(id='P04-circle-arc-end', property='P04',
   edits=[('Patro/GeometryEngine/Primitive.py', "            return bounding_box_from_points(self.points)", "            return bounding_box_from_points((self.start_point, *self.points[1:]) if self.number_of_points != 3 else self.points[::2])")],
   needs='a three-point primitive whose middle point is extremal', what='the box of a triangle ignores its second point',
   demo='''
   from Patro.GeometryEngine.Vector import Vector2D as V
   from Patro.GeometryEngine.Triangle import Triangle2D
   b = Triangle2D(V(0, 0), V(10, 1), V(2, 5)).bounding_box
   assert b.x.sup == 10, b
   '''),
 dict(id='P04-union-area', property='P04',
   edits=[('Patro/GeometryEngine/BoundingBox.py', "            bounding_box |= point.bounding_box", "            if point not in bounding_box_points_guard:\n                bounding_box |= point.bounding_box")],
   needs='-', what='-', demo='''raise SystemExit(0)'''),
 dict(id='P11-distance-orientation', property='P11',
   edits=[(C, "        if orientation < 0:\n            orientation = 360 + orientation", "        if orientation < -180:\n            orientation = 360 + orientation")],
   needs='a point below the centre', what='angles reported in -180..180',
   demo='''
   from Patro.GeometryEngine.Vector import Vector2D as V
   from Patro.GeometryEngine.Conic import Circle2D
   assert abs(Circle2D(V(0, 0), 1).angle_for_point(V(0, -1)) - 270) < 1e-6
   '''),
 dict(id='P11-arc-length-radius', property='P11',
   edits=[(C, "                stop_angle = start_angle + math.degrees(distance / radius)", "                stop_angle = (start_angle + math.degrees(distance / radius)) % 360")],
   needs='an arc by start angle and length whose start angle is negative or which ends on 360 degrees', what='wrapping of the stop angle',
   demo='''
   from Patro.GeometryEngine.Vector import Vector2D as V
   from Patro.GeometryEngine.Conic import Circle2D
   import math
   c = Circle2D(V(0, 0), 1, start_angle=-300, distance=math.radians(20))
   assert abs(c.perimeter - math.radians(20)) < 1e-6, c.perimeter
   '''),
 dict(id='P11-nearest-end', property='P11',
   edits=[(C, "            return min([(point - vertex).magnitude for vertex in (self.start_point, self.stop_point)])",
              "            middle = (self._domain.start + self._domain.stop) / 2\n            vertex = self.start_point if abs(angle - self._domain.start) < abs(angle - self._domain.stop) else self.stop_point\n            return (point - vertex).magnitude")],
   needs='a point facing the gap of an arc, whose angle is on the other side of 0 than the nearest end', what='nearest end chosen by the angles without wrapping',
   demo='''
   from Patro.GeometryEngine.Vector import Vector2D as V
   from Patro.GeometryEngine.Conic import Circle2D, AngularDomain
   c = Circle2D(V(0, 0), 1, AngularDomain(20, 200))
   d = c.distance_to_point(V.from_polar(1, 350))
   assert abs(d - (V.from_polar(1, 350) - V.from_polar(1, 20)).magnitude) < 1e-6
   '''),
 dict(id='P11-secant-sign', property='P11',
   edits=[(C, "            x_b = sign(dy) * dx * sqrt(discriminant)", "            x_b = (dy > 0) * dx * sqrt(discriminant) - (dy < 0) * dx * sqrt(discriminant)")],
   needs='a horizontal line', what='the two intersections with a horizontal line coincide',
   demo='''
   from Patro.GeometryEngine.Vector import Vector2D as V
   from Patro.GeometryEngine.Conic import Circle2D
   from Patro.GeometryEngine.Segment import Segment2D
   p, q = Circle2D(V(0, 0), 5).intersect_segment(Segment2D(V(0, 3), V(1, 3)))
   assert abs((p - q).magnitude - 8) < 1e-6
   '''),
 dict(id='P11-circle-radii', property='P11',
   edits=[(C, "        y2 = self.radius**2 - x**2", "        y2 = circle.radius**2 - x**2")],
   needs='two circles of different radii', what='-',
   demo='''
   from Patro.GeometryEngine.Vector import Vector2D as V
   from Patro.GeometryEngine.Conic import Circle2D
   for p in Circle2D(V(0, 0), 5).intersect_circle(Circle2D(V(6, 0), 4)):
       assert abs(p.magnitude - 5) < 1e-6
   '''),
 dict(id='P12-eberly-axis', property='P12',
   edits=[(C, "            if numer0 < denom0:", "            if y0 < e1:")],
   needs='a point on the major axis close to a focus', what='nearest point of a point on the major axis',
   demo='''
   from Patro.GeometryEngine.Vector import Vector2D as V
   from Patro.GeometryEngine.Conic import Ellipse2D
   e = Ellipse2D(V(0, 0), 10, 8)
   d = e.distance_to_point(V(5, 0))
   assert abs(d - 5) < 1e-6, d
   '''),
 dict(id='P12-frame-shift', property='P12',
   edits=[(C, "        return (point - self._center).rotate(-self._angle)", "        return point.rotate(-self._angle) - self._center")],
   needs='a rotated ellipse that is not centred on the origin', what='change of frame',
   demo='''
   from Patro.GeometryEngine.Vector import Vector2D as V
   from Patro.GeometryEngine.Conic import Ellipse2D
   e = Ellipse2D(V(3, 1), 10, 8, 30)
   assert (e.point_from_ellipse_frame(e.point_in_ellipse_frame(V(2, 7))) - V(2, 7)).magnitude < 1e-6
   '''),
 dict(id='P12-bezier-handle', property='P12',
   edits=[(C, "        t = 8/3 * math.sin(half_delta_angle / 2)**2 / math.sin(half_delta_angle)", "        t = 4/3 * (math.sqrt(2) - 1) * (half_delta_angle / (pi/4))")],
   needs='an arc that is not a multiple of a quarter', what='handles interpolated linearly',
   demo='''
   from Patro.GeometryEngine.Vector import Vector2D as V
   from Patro.GeometryEngine.Conic import Ellipse2D, AngularDomain
   e = Ellipse2D(V(0, 0), 10, 10, 0, AngularDomain(0, 50))
   for c in e.to_bezier():
       assert abs(c.point_at_t(.5).magnitude - 10) < 3e-4, c.point_at_t(.5).magnitude
   '''),
 dict(id='P12-sweep-half', property='P12',
   edits=[(C, "        radii_scale = point1_prime.x**2/radius_x2 + point1_prime.y**2/radius_y2\n        if radii_scale > 1:", "        radii_scale = point1_prime.x**2/radius_x2 + point1_prime.y**2/radius_y2\n        if radii_scale > 1 and radius_x + radius_y < 2*point1_prime.magnitude:")],
   needs='radii that are too small along the chord although their mean is larger than the half chord', what='the enlargement is skipped',
   demo='''
   from Patro.GeometryEngine.Vector import Vector2D as V
   from Patro.GeometryEngine.Conic import Ellipse2D
   e = Ellipse2D.svg_arc(V(-10, 0), V(10, 0), 5, 30, 0, False, True)
   assert abs(e.radius_x - 10) < 1e-6, e
   '''),
]
del BUGS[1]
