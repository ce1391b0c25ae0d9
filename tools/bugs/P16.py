S='Patro/GeometryEngine/Path.py'
H='''
from Patro.GeometryEngine.Vector import Vector2D as V
from Patro.GeometryEngine.Path import Path2D
def same(p, q): assert (p - V(q)).magnitude < 1e-9, (p, q)
'''
def bug(id, edits, needs, what, demo):
    return dict(id=id, property=id.split('-')[0], edits=[(S, a, b) for a, b in edits], needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P16-southwest', [("    __angle__ = -180 + 45","    __angle__ = -180 - 45")], 'a south-west move', 'the move goes north-west',
   "p = Path2D((0,0)); p.south_west_to(2**.5); same(p[0].stop_point, (-1,-1))"),
 bug('P16-cubic-relative', [("""        return self.to_absolute_point(self._point2)

    @point2.setter""","""        return self.to_absolute_point(self._point2) if self._absolute else self._point2 + self.point1

    @point2.setter""")], 'a relative curve', 'second control point relative to the first one',
   "p = Path2D((1,1)); p.cubic_to((1,0),(2,3),(4,4)); same(p[0].point2, (3,4))"),
 bug('P16-arc-large', [("            self._angle,\n            self._large_arc, self._sweep,\n        )\n\n####","            self._angle,\n            self._large_arc and not self._absolute or self._large_arc and self._sweep, self._sweep,\n        )\n\n####")],
   'an absolute large arc which is not swept', 'the small arc is drawn',
   "p = Path2D((0,0)); p.arc_to((1,0),2,2,0,True,False,absolute=True); assert abs(p[0].geometry.domain.stop-p[0].geometry.domain.start) > 180"),
 bug('P16-closed', [("        if not self._is_closed:\n            obj = part_cls","        if not self._is_closed or part_cls is ArcSegment:\n            obj = part_cls")],
   'an arc command after the closing', 'a part is added to a closed path',
   "p = Path2D((0,0)); p.line_to((1,0)); p.line_to((1,1)); p.close(); p.arc_to((1,0),2,2,0,True,False); assert len(p) == 3"),
 bug('P17-absolute-cubic', [("        self._point1 = self.point1\n        self._point2 = self.point2\n        self._point3 = self.point3\n        self._absolute = True","        self._point3 = self.point3\n        self._absolute = True\n        self._point1 = self.point1\n        self._point2 = self.point2")],
   'transformation of a path with a relative cubic part', 'control points are taken as absolute',
   "p = Path2D((1,1)); p.cubic_to((1,0),(2,3),(4,4)); p.rotate(90); same(p[0].point1, (-1,2))"),
 bug('P17-p0', [("        self._p0 = transformation * self._p0\n","        if not self._is_closed:\n            self._p0 = transformation * self._p0\n")],
   'transformation of a closed path', 'the start point is left in place',
   "p = Path2D((1,1)); p.line_to((1,0)); p.line_to((0,1)); p.close(); p.rotate(90); same(p.p0, (-1,1))"),
 bug('P17-clone-arc', [("            self._radius_x, self._radius_y,\n            self._angle,\n            self._large_arc, self._sweep,\n            self._absolute,","            self._radius_x, self._radius_y,\n            self._angle,\n            self._sweep, self._large_arc,\n            self._absolute,")],
   'clone of a path with an arc whose flags differ', 'flags are exchanged',
   "p = Path2D((0,0)); p.arc_to((1,0),2,2,0,True,False); q = p.clone(); assert abs(q[0].geometry.domain.stop-q[0].geometry.domain.start) > 180"),
 bug('P17-radius', [("        if self._radius is not None:\n            self._radius = transformation * self._radius\n","        if self._radius is not None and self._index:\n            self._radius = transformation * self._radius\n")],
   'scaling of a closed path with a rounded closing corner', 'the radius of the first corner is not scaled',
   "p = Path2D.rounded_rectangle(V(0,0),10,10,2); p.scale(2); same(p[0].bulge_start_point, (0,4))"),
 bug('P18-next', [("        if isinstance(next_part, LinearSegment) and next_part.radius is not None:","        if isinstance(next_part, LinearSegment) and next_part.radius is not None and not (self._closing and self._radius is None):")],
   'a closing with a rounded closing corner but no radius for the last corner', 'the closing side is not shortened',
   "p = Path2D((0,0)); p.line_to((10,0)); p.line_to((0,10)); p.close(close_radius=1)\nsame(p[2].points[1], p[0].bulge_start_point)"),
 bug('P18-round', [("            value = abs(float(value))\n","            value = round(abs(float(value)), 1)\n")],
   'a radius with more than one decimal', 'the radius of a rounded corner is rounded',
   "p = Path2D((0,0)); p.line_to((0,10)); p.line_to((10,0), radius=.25); assert p[1].radius == .25"),
 bug('P18-next-direction', [("        if self._closing:\n            return self._path.start_segment # or [0]\n        else:\n            return","        if self._closing and isinstance(self._path.start_segment, PathSegment):\n            return self._path.start_segment # or [0]\n        else:\n            return")],
   'a closed path which starts by a directional command, with a rounded closing corner', 'the closing side is not shortened',
   "p = Path2D((0,0)); p.east_to(10); p.line_to((0,10)); p.close(close_radius=1)\nsame(p[2].points[1], p[0].bulge_start_point)"),
 bug('P17-hv-closure', [("        path = PathSegment(self._path, self._index, self.stop_point, radius, absolute=True)\n\n        if close:\n            path.close(self._radius)","        path = PathSegment(self._path, self._index, self.stop_point, radius, absolute=True)\n\n        if close and self._path._p0.y != 0:\n            path.close(self._radius)")],
   'transformation of a closed path whose first part is an absolute axis move, from the abscissa axis, with a rounded closing corner', 'the first corner is no longer rounded',
   "p = Path2D((0,0)); p.absolute_horizontal_to(10); p.line_to((0,10)); p.close(close_radius=1); p.rotate(10); assert p[0].radius == 1"),
]
