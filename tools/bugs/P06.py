S = 'Patro/GeometryEngine/Segment.py'
T = 'Patro/GeometryEngine/Triangle.py'
BUGS = [
    dict(id='P06-behind', property='P06',
         edits=[(T, "        if dx1 * dx2 < 0 or dy1 * dy2 < 0:", "        if dx1 * dx2 < 0:")],
         needs='collinear vertical segments',
         what='a point behind the origin of a vertical segment is taken as on the segment or beyond it',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D as V
         from Patro.GeometryEngine.Segment import Segment2D
         a = Segment2D(V(0, 0), V(0, 4))
         b = Segment2D(V(0, -3), V(0, -1))
         assert not a.intersect_with(b)
         '''),
    dict(id='P06-flat-side', property='P06',
         edits=[(T, "        elif dx1 * dx1 + dy1 * dy1 >= dx2 * dx2 + dy2 * dy2:", "        elif dx1 * dx1 + dy1 * dy1 > dx2 * dx2 + dy2 * dy2:")],
         needs='a segment ending exactly at the end of the other one',
         what='contact at the second end of a segment is missed',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D as V
         from Patro.GeometryEngine.Segment import Segment2D
         a = Segment2D(V(0, 0), V(4, 0))
         b = Segment2D(V(4, 0), V(7, 1))
         assert a.intersect_with(b) and b.intersect_with(a)
         '''),
    dict(id='P06-distance-end', property='P06',
         edits=[(S, "            if s < 0:\n                p = self._p0", "            if d < 0:\n                p = self._p0")],
         needs='a point beyond an end, on the left or on the right of the segment',
         what='the distance to a point beyond an end is measured to the wrong end depending on the side',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D as V
         from Patro.GeometryEngine.Segment import Segment2D
         a = Segment2D(V(0, 0), V(4, 0))
         assert abs(a.distance_to_point(V(-3, 4)) - 5) < 1e-9 and abs(a.distance_to_point(V(7, -4)) - 5) < 1e-9
         '''),
    dict(id='P06-vertex', property='P06',
         edits=[(S, "            intersect = (0 <= s1 <= 1) and (0 <= s2 <= 1)", "            intersect = (0 <= s1 <= 1) and (0 <= s2 < 1)")],
         needs='a T contact at the second end of the second segment',
         what='the intersection at the end of the second segment is not flagged as interior',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D as V
         from Patro.GeometryEngine.Segment import Segment2D
         a = Segment2D(V(0, 0), V(4, 0))
         b = Segment2D(V(2, 4), V(2, 0))
         assert a.intersection(b)[1]
         '''),
]
