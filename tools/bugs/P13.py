B='Patro/GeometryEngine/Bezier.py'
H='''
from Patro.GeometryEngine.Vector import Vector2D as V
from Patro.GeometryEngine.Line import Line2D
from Patro.GeometryEngine.Bezier import QuadraticBezier2D as Q, CubicBezier2D as C
'''
def bug(id, edits, needs, what, demo):
    return dict(id=id, property=id.split('-')[0], edits=[(B, a, b) for a, b in edits], needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P13-two-t', [("            t = (t2 - t1) / (1 - t1)\n","            t = (t2 - t1) / (1 - t1 * t1)\n")],
   'extraction of an inner part', 'second parameter wrongly mapped',
   "c = C(V(0,0),V(1,2),V(3,4),V(5,0)); d = c.split_at_two_t(.5,.75)\nassert (d.p3 - c.point_at_t(.75)).magnitude < 1e-9"),
 bug('P13-tangent', [("        return (self._p1 - self._p0) * u**2 + (self._p2 - self._p1) * 2 * t * u + (self._p3 - self._p2) * t**2",
                      "        return (self._p1 - self._p0) * u**2 + (self._p2 - self._p1) * t * u + (self._p3 - self._p2) * t**2")],
   'a parameter strictly inside the unit interval and a curve that is not symmetric', 'weight of the middle term of the derivative',
   "c = C(V(0,0),V(1,2),V(3,4),V(5,0)); v = c.tangent_at(.3); e=1e-6; w=c.point_at_t(.3+e)-c.point_at_t(.3-e)\nassert abs(v.cross(w)) < 1e-6 * v.magnitude * w.magnitude"),
 bug('P14-closest-term', [("            3 * (point.dot(n) - n.dot(v) - r.dot(s)),","            3 * (point.dot(n) - n.dot(v)) - 2*r.dot(s),")],
   'a cubic curve whose second and first derivatives are not orthogonal', 'coefficient of the stationary points',
   "c = C(V(0,0),V(1,2),V(3,4),V(5,0)); p=V(3,1)\nb=min((c.point_at_t(i/1000)-p).magnitude for i in range(1001))\nassert (c.closest_point(p)-p).magnitude < b+1e-6"),
 bug('P14-fat-factor', [("        if d1*d2 > 0:\n            factor = 3 / 4\n        else:\n            factor = 4 / 9","        if d1*d2 < 0:\n            factor = 3 / 4\n        else:\n            factor = 4 / 9")],
   'control points on the same side of the chord', 'the curve goes out of its fat line',
   "c = C(V(0,0),V(1,2),V(3,2),V(4,0)); l, a, b = c.fat_line()\nfor i in range(101):\n    assert a - 1e-9 <= l.distance_to_line(c.point_at_t(i/100)) <= b + 1e-9"),
 bug('P14-flat-threshold', [("         criterion = max(u.x**2, v.x**2) + max(u.y**2, v.y**2)","         criterion = max(u.x**2 + u.y**2, v.x**2 + v.y**2) / 2")],
   'a curve just above the tolerance', 'a curve is declared flat up to 1.4 times the tolerance',
   "c = C(V(0,0),V(1,1),V(2,1),V(3,0)); d=.75\nassert not c.is_flat_enough(.7)"),
 bug('P14-area', [("                     + y1 * (x0 - x2) - x1 * (y0 - y2)","                     + y1 * (x0 - x2) - x1 * (y3 - y2)")],
   'end points that have different ordinates', 'area of a cubic curve',
   "c = C(V(0,0),V(1,2),V(3,2),V(4,3)); d=c.rotate(30,clone=True)\nassert abs(c.area-d.area)<1e-9"),
 bug('P14-adaptive', [("            segments.append(split[0])\n            segment = split[1]","            segments.append(split[0].split_at_t(1)[0])\n            segment = split[1] if t_max > .01 else split[1].split_at_t(t_max)[1]")],
   'a very long curve (more than about 1e4 units)', 'parts of the curve are skipped',
   "c = C(V(0,0),V(1e5,2e5),V(-3e5,4e5),V(5e5,0))\nassert abs(c.length / c.scale(.0001, clone=True).length / 1e4 - 1) < 1e-3"),
 bug('P14-dichotomy', [("            elif length_at_middle < length:\n                inf = middle","            elif length_at_middle < length:\n                inf = middle\n                precision *= 4")],
   'a length that needs several iterations', 'the precision of the parameter is lost',
   "c = Q(V(0,0),V(10,20),V(30,20)); t=c.t_at_length(27.2)\nassert abs(c.split_at_t(t)[0].length-27.2)<1e-4"),
]
