S='Patro/GeometryEngine/Spline.py'
H='''
from Patro.GeometryEngine.Vector import Vector2D as V
from Patro.GeometryEngine.Bezier import CubicBezier2D as C
from Patro.GeometryEngine.Spline import BSpline2D as B
P = [V(0,0),V(5,5),V(10,-5),V(15,5),V(20,-5),V(25,5)]
def same(p, q): assert (p - q).magnitude < 1e-9, (p, q)
'''
def bug(id, edits, needs, what, demo):
    return dict(id=id, property=id.split('-')[0], edits=[(S, a, b) for a, b in edits], needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P15-close-knots', [("                if d > 0:\n                    w = (t - ti) / d\n","                if d > 0:\n                    w = (t - ti) / max(d, 1)\n")],
   'knots that spread over less than one unit, for instance after a previous insertion', 'inserting a knot moves the curve',
   "s = B(P[:4], 1); t = s.insert_knot(.5).insert_knot(.25)\nfor i in range(31): same(s.point_at_t(i/10), t.point_at_t(i/10))"),
 bug('P15-insert-alias', [("        knots = self._knots[:l+1] + [t] + self._knots[l+1:]\n","        knots = self._knots\n        knots.insert(l+1, t)\n")],
   'the spline is used again after an insertion', 'the knots of the source spline change too',
   "s = B(P, 3); a = s.insert_knot(.5).knots; b = s.insert_knot(.5).knots\nassert len(a) == len(b) == 11"),
 bug('P15-high-degree', [("                for r in range(1, self.order):\n".replace('                ','        '),"        for r in range(1, min(self.order, 4)):\n")],
   'degree 4 or more', 'de Boor recursion stops too early',
   "s = B(P, 4); same(s.point_at_t(.5), s.point_at_t(.5, naive=True))"),
 bug('P15-bezier-spline', [("        (2/3, -1/3,  2/3,  11/3),","        (2/3, -1/3,  2/3,  10/3),")],
   'conversion of a cubic Bezier curve to a spline', 'the last control point is wrong',
   "c = C(*P[:4]); same(c.to_spline().point_at_t(.9), c.point_at_t(.9))"),
 bug('P15-multiplicity', [("            for i in range(degree - multiplicity +1):\n                new_spline = new_spline.insert_knot(t)\n","            for i in range(degree - multiplicity +1):\n                new_spline = new_spline.insert_knot(t + i * 1e-3)\n")],
   'a spline of at least two spans', 'the Bezier curves do not join exactly',
   "b = B(P, 3).to_bezier()\nfor x, y in zip(b, b[1:]): same(x.p3, y.p0)"),
]
