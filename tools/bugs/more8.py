VE = 'Patro/GeometryEngine/Vector.py'
SE = 'Patro/GeometryEngine/Segment.py'
PO = 'Patro/GeometryEngine/Polygon.py'
TR = 'Patro/GeometryEngine/Triangle.py'
LI = 'Patro/GeometryEngine/Line.py'
CO = 'Patro/GeometryEngine/Conic.py'
RO = 'Patro/Common/Math/Root.py'
AH = 'Patro/GeometryEngine/Shape/ArrowHead.py'
TF = 'Patro/GeometryEngine/Transformation.py'
BUGS = [
    dict(id='P01-tiny-abscissa', property='P01',
         edits=[(VE, '        if self.x == 0:\n', '        if abs(self.x) < 1e-4:\n')],
         needs='a vector whose abscissa is less than 1e-4, not null',
         what='the orientation is rounded to the vertical',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D
         assert abs(Vector2D(5e-5, 5e-5).orientation - 45) < 1e-9
         '''),
    dict(id='P06-short', property='P06',
         edits=[(SE, '        if line.v.magnitude_square == 0:\n', '        if line.v.magnitude_square < 1e-6:\n')],
         needs='a segment shorter than a thousandth',
         what='short segments are taken as points',
         demo='''
         from Patro.GeometryEngine.Segment import Segment2D
         from Patro.GeometryEngine.Vector import Vector2D
         s = Segment2D(Vector2D(0, 0), Vector2D(5e-4, 0))
         assert abs(s.distance_to_point(Vector2D(5e-4, 1e-5)) - 1e-5) < 1e-9
         '''),
    dict(id='P07-small-area', property='P07',
         edits=[(PO, '        if area == 0:\n', '        if abs(area) < 1e-6:\n')],
         needs='a polygon whose area is less than a millionth',
         what='the area of small polygons is null',
         demo='''
         from Patro.GeometryEngine.Polygon import Polygon2D
         from Patro.GeometryEngine.Vector import Vector2D
         p = Polygon2D(*[Vector2D(x*1e-4, y*1e-4) for x, y in ((0, 0), (4, 0), (4, 4), (0, 4))])
         assert abs(p.area - 16e-8) < 1e-12
         '''),
    dict(id='P08-slack', property='P08',
         edits=[(TR, '    return cross1*cross2 >= 0\n', '    return cross1*cross2 >= -1e-9\n')],
         needs='a small triangle, or a point very near a side',
         what='points out of small triangles are inside',
         demo='''
         from Patro.GeometryEngine.Triangle import Triangle2D
         from Patro.GeometryEngine.Vector import Vector2D
         t = Triangle2D(*[Vector2D(x*1e-3, y*1e-3) for x, y in ((0, 0), (4, 0), (0, 4))])
         assert not t.is_point_inside(Vector2D(5e-3, 5e-3))
         '''),
    dict(id='P05-near-origin', property='P05',
         edits=[(LI, '        if delta.magnitude_square == 0:\n', '        if delta.magnitude_square < 1e-6:\n')],
         needs='a point nearer than a thousandth to the origin of the line',
         what='distance and abscissa are null near the origin of the line',
         demo='''
         from Patro.GeometryEngine.Line import Line2D
         from Patro.GeometryEngine.Vector import Vector2D
         d, s = Line2D(Vector2D(0, 0), Vector2D(1, 0)).distance_and_abscissa_to_line(Vector2D(5e-4, 5e-4))
         assert abs(s - 5e-4) < 1e-9, s
         '''),
    dict(id='P11-small-secant', property='P11',
         edits=[(CO, '        if discriminant < 0:\n', '        if discriminant < 1e-7:\n')],
         needs='a small circle and a short segment',
         what='no intersection with small circles',
         demo='''
         from Patro.GeometryEngine.Conic import Circle2D
         from Patro.GeometryEngine.Segment import Segment2D
         from Patro.GeometryEngine.Vector import Vector2D
         c = Circle2D(Vector2D(0, 0), .01)
         assert c.intersect_segment(Segment2D(Vector2D(-.01, .001), Vector2D(.01, .001)))
         '''),
    dict(id='P11-grazing', property='P11',
         edits=[(CO, '        if y2 < 0:\n', '        if y2 < 1e-6*self.radius**2 and y2 != 0:\n')],
         needs='two circles that are nearly tangent',
         what='circles that overlap by less than a millionth do not intersect',
         demo='''
         from Patro.GeometryEngine.Conic import Circle2D
         from Patro.GeometryEngine.Vector import Vector2D
         c = Circle2D(Vector2D(0, 0), 1)
         assert c.intersect_circle(Circle2D(Vector2D(2 - 2e-7, 0), 1))
         '''),
    dict(id='P12-near-axis', property='P12',
         edits=[(CO, '        if y1 > 0:\n', '        if y1 > 1e-3:\n')],
         needs='a point nearer than a thousandth to the major axis, not on it',
         what='the point is projected as if it was on the major axis',
         demo='''
         from Patro.GeometryEngine.Conic import Ellipse2D
         from Patro.GeometryEngine.Vector import Vector2D
         e = Ellipse2D(Vector2D(0, 0), .004, .002)
         a = e.distance_to_point(Vector2D(0, .0009))
         assert abs(a - .0011) < 1e-9, a
         '''),
    dict(id='P19-nearly-cubic', property='P19',
         edits=[(RO, '    if a == 0:\n        return quadratic_root(b, c, d)\n', '    if abs(a) < 1e-6:\n        return quadratic_root(b, c, d)\n')],
         needs='a cubic polynomial with a small leading coefficient',
         what='a small leading coefficient is taken as null and a root is lost',
         demo='''
         from Patro.Common.Math.Root import cubic_root
         k = 2**-21
         assert len(cubic_root(k, -6*k, 11*k, -6*k)) == 3
         '''),
    dict(id='P19-nearly-linear', property='P19',
         edits=[(RO, '    if a == 0:\n        return (- c / b,)\n', '    if abs(a) < 1e-6:\n        return (- c / b,)\n')],
         needs='a quadratic polynomial with small coefficients',
         what='a small leading coefficient is taken as null and a root is lost',
         demo='''
         from Patro.Common.Math.Root import quadratic_root
         k = 2**-21
         assert len(quadratic_root(k, -3*k, 2*k)) == 2
         '''),
    dict(id='P40-small-offset', property='P40',
         edits=[(AH, '        return self._axial_offset != 0\n', '        return abs(self._axial_offset) > 1e-2\n')],
         needs='an axial offset of less than a hundredth',
         what='small offsets are ignored',
         demo='''
         from Patro.GeometryEngine.Shape.ArrowHead import TriangularHead
         from Patro.GeometryEngine.Vector import Vector2D
         h = TriangularHead(Vector2D(0, 0), Vector2D(1, 0), .02, .01, .005)
         assert len(list(h.points)) == 4
         '''),
    dict(id='P02-small-shear', property='P02',
         edits=[(TF, '        if m01 == 0 and m10 == 0:\n', '        if abs(m01) < 1e-3 and abs(m10) < 1e-3:\n')],
         needs='a matrix which is diagonal up to less than a thousandth',
         what='a small rotation or shear is taken as the identity or a scale',
         demo='''
         from Patro.GeometryEngine.Transformation import Transformation2D, TransformationType
         t = Transformation2D.Rotation(.01)
         assert t.type == TransformationType.Rotation
         m = Transformation2D(__import__('numpy').array(((1, 5e-4), (0, 1))))
         assert m.type not in (TransformationType.Identity,), m.type
         '''),
]
