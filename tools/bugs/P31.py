I='Patro/FileFormat/Dxf/Importer.py'; L='Patro/FileFormat/Dxf/Polyline.py'
H='''
import tempfile, math
from pathlib import Path
import ezdxf
from Patro.FileFormat.Dxf.Importer import DxfImporter
from Patro.FileFormat.Dxf.Polyline import Polyline
from Patro.GeometryEngine.Vector import Vector2D as V
def load(draw):
    with tempfile.TemporaryDirectory() as directory:
        path = Path(directory) / 'a.dxf'
        drawing = ezdxf.new('R2000')
        draw(drawing.modelspace())
        drawing.saveas(path)
        return DxfImporter(path)
def near(p, x, y):
    return math.hypot(p.x - x, p.y - y) < 1e-6
'''
def bug(id, F, edits, needs, what, demo):
    return dict(id=id, property='P31', edits=[(F, a, b) for a, b in edits], needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P31-last-bulge', L, [("            yield self._vertices[-1], self._vertices[0]","            yield PolylineVertex(self, len(self) -1, self._vertices[-1].point), self._vertices[0]")],
   'a closed polyline whose last vertex has a bulge', 'the closing arc becomes a segment', "l = load(lambda s: s.add_lwpolyline([(0, 0, 0), (2, 0, 0), (2, 2, 1)], format='xyb', close=True))[0]; assert type(l[-1]).__name__ == 'Circle2D'"),
 bug('P31-big-bulge', L, [("            return self.demi_chord/2 * (1/self._bulge - self._bulge)","            return self.demi_chord/2 * abs(1/self._bulge - self._bulge) * sign(self._bulge)"),("from Patro.GeometryEngine.Conic","from Patro.Common.Math.Functions import sign\nfrom Patro.GeometryEngine.Conic")],
   'a bulge greater than 1', 'the centre is on the wrong side', "l = load(lambda s: s.add_lwpolyline([(0, 0, 2), (2, 0, 0)], format='xyb'))[0]; assert abs(l[0].center.y - .75) < 1e-6 or abs(l[0].center.y + .75) < 1e-6; c = l[0].center.y; assert c < 0, c"),
 bug('P31-swap', L, [("                if vertex1.bulge < 0:\n","                if vertex1.bulge <= -1:\n")],
   'a bulge in ]-1, 0[', 'the arc is the other part of the circle', "l = load(lambda s: s.add_lwpolyline([(0, 0, -.5), (2, 0, 0)], format='xyb'))[0]; a = l[0]; assert a.domain.is_inside(90) and not a.domain.is_inside(270)"),
 bug('P31-minor', I, [("        radius_x, radius_y = major_axis.magnitude, minor_axis.magnitude","        radius_x, radius_y = major_axis.magnitude, abs(minor_axis.x) or minor_axis.magnitude")],
   'an oblique ellipse', 'its minor radius is wrong', "e = load(lambda s: s.add_ellipse((0, 0), (3, 4), .5))[0]; assert abs(e.radius_y - 2.5) < 1e-6"),
 bug('P31-vertical', I, [("            radius_x, radius_y = radius_y, radius_x\n            angle = 0\n","            radius_x, radius_y = radius_y, radius_x\n            angle = 0 if domain.is_closed else 180\n")],
   'an arc of ellipse whose major axis goes up', 'it is rotated by half a turn', "e = load(lambda s: s.add_ellipse((0, 0), (0, 2), .5, 0, math.pi / 2))[0]; assert near(e.point_at_angle(e.domain.start), 0, 2) or near(e.point_at_angle(e.domain.stop), 0, 2)"),
 bug('P31-closed-polyline', I, [("        polyline = Polyline(item.closed)","        polyline = Polyline(item.closed and len(item) > 2)")],
   'a closed polyline with two vertices', 'a half is lost', "l = load(lambda s: s.add_lwpolyline([(0, 0, 1), (2, 0, 1)], format='xyb', close=True))[0]; assert len(l) == 2"),
 bug('P31-degrees', I, [("            domain = AngularDomain(item_dxf.start_angle, item_dxf.end_angle)","            domain = AngularDomain(item_dxf.start_angle, item_dxf.end_angle or 360)\n            if domain.is_clockwise:\n                domain = AngularDomain(domain.stop, domain.start)")],
   'an arc that passes by the angle 0', 'it becomes the other part of the circle', "a = load(lambda s: s.add_arc((0, 0), 1, 300, 60))[0]; assert a.domain.is_inside(0) and not a.domain.is_inside(180)"),
 bug('P31-next', L, [("        return index == len(self) - 1","        return index == len(self) - 1 or index == 7")],
   'a polyline with more than eight vertices', 'the chord of the eighth vertex is wrong', "p = Polyline(True)\nfor i in range(10):\n    p.add(V(i, i * i), .5)\nassert p[7].next is p[8]; assert abs(p.geometry()[7].point_at_angle(p.geometry()[7].domain.start).x - 7) < 1e-6 or abs(p.geometry()[7].point_at_angle(p.geometry()[7].domain.start).x - 8) < 1e-6"),
]
