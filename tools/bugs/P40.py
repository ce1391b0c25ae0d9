A='Patro/GeometryEngine/Shape/ArrowHead.py'
H='''
from Patro.GeometryEngine.Shape.ArrowHead import TriangularHead, TriangularCurvyHead
from Patro.GeometryEngine.Vector import Vector2D as V
def near(p, x, y): return abs(p.x - x) < 1e-9 and abs(p.y - y) < 1e-9
'''
def bug(id, edits, needs, what, demo):
    return dict(id=id, property='P40', edits=edits, needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P40-right', [(A,"                points = [self.right_point, self.offseted_back_tip_point]","                points = [self.right_point, self.back_tip_point]")],
   'a triangular head with only the right side and an axial offset', 'the offset is ignored', """
h = TriangularHead(V(0, 0), V(1, 0), 4, 2, axial_offset=1, left_side=False)
assert any(near(p, -5, 0) for p in h.points)
"""),
 bug('P40-curve', [(A,"                vertices = (self.offseted_back_tip_point, self.right_point)\n                control2 = self.right_curved_point","                vertices = (self.offseted_back_tip_point, self.right_point)\n                control2 = self.left_curved_point")],
   'a curvy head with both sides and an axial offset', 'the right side has the control point of the left one', """
h = TriangularCurvyHead(V(0, 0), V(1, 0), 4, 2, .25, axial_offset=1)
g = [p.geometry for p in h if 'Quadratic' in type(p).__name__][1]
assert any(near(p, h.right_curved_point.x, h.right_curved_point.y) for p in g.points)
"""),
 bug('P40-negative', [(A,"        return self._axial_offset != 0","        return self._axial_offset > 0")],
   'a head with a negative axial offset', 'the offset is ignored', """
h = TriangularHead(V(0, 0), V(1, 0), 4, 2, axial_offset=-1)
assert any(near(p, -3, 0) for p in h.points)
"""),
 bug('P40-only', [(A,"                controls1 = (self.right_curved_point, self.right_point)\n                vertices = (self.back_tip_point,)","                controls1 = (self.right_curved_point, self.right_point)\n                vertices = ()")],
   'a curvy head with only the right side', 'the outline does not go back to the axis', """
h = TriangularCurvyHead(V(0, 0), V(1, 0), 4, 2, .25, left_side=False)
assert any(near(p.stop_point, -4, 0) for p in h)
"""),
]
