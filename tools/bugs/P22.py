F='Patro/FileFormat/Svg/SvgFormat.py'
H='''
from Patro.FileFormat.Svg.SvgFormat import PathDataAttribute as P, TransformAttribute as T
from Patro.GeometryEngine.Path import Path2D
from Patro.GeometryEngine.Vector import Vector2D as V
def ends(text): return [(float(p.stop_point.x), float(p.stop_point.y)) for p in P.from_xml(text)]
def near(p, q): assert all(abs(float(a) - b) < 1e-9 for a, b in zip(p, q)), (p, q)
'''
def bug(id, edits, needs, what, demo, F=F):
    return dict(id=id, property='P22', edits=[(F, a, b) for a, b in edits], needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P22-implicit', [("            if command == 'm':\n                command = 'l'\n            elif command == 'M':\n                command = 'L'","            if command_lower == 'm':\n                command = 'L'")],
   'several pairs after a relative moveto', 'the following points are absolute', "assert ends('m 1 2 3 4 -1 -1') == [(4, 6), (3, 5)] and ends('M 1 2 3 4') == [(3, 4)]"),
 bug('P22-repeat-h', [("            i = next_i\n","            i = next_i\n            if len(commands) > 1 and command in 'hH' and command == commands[-2][0]:\n                # same direction\n                commands[-2:] = [(command, [commands[-2][1][0] + args[0] if command == 'h' else args[0]])]\n")],
   'two horizontal lines in a row', 'they are merged', "assert ends('M0 0h1h-3') == [(1, 0), (-2, 0)]"),
 bug('P22-rotate', [("                transform = AffineTransformation2D.RotationAt(vector, angle)","                if vector.x and vector.y:\n                    transform = AffineTransformation2D.RotationAt(vector, angle)\n                else:\n                    transform = AffineTransformation2D.Rotation(angle)")],
   'a rotation around a point of an axis', 'it is around the origin', "p = T.from_xml('rotate(90, 3, 0)') * V(3, 0); near((p.x, p.y), (3, 0))"),
 bug('P22-translate', [("                vector = Vector2D(complete(values, 2))","                vector = Vector2D(values if len(values) > 1 else values*2)")],
   'a translation with one number', 'it is along the diagonal', "p = T.from_xml('scale(2) translate(3)') * V(0, 0); near((p.x, p.y), (6, 0))"),
 bug('P22-precision', [("[str(x) for x in command[1]]","['{:.10g}'.format(x) for x in command[1]]")],
   'a written coordinate with more than ten digits', 'it is rounded', "path = Path2D((0, 0)); path.line_to((1234567.890625, 1/3)); p = ends(P.to_xml(path))[0]; assert p == (1234567.890625, 1/3), p"),
 bug('P22-arc', [("                    path.arc_to(point, radius_x, radius_y, angle, bool(large_arc), bool(sweep), absolute=absolute)","                    path.arc_to(point, max(radius_x, radius_y), min(radius_x, radius_y), angle, bool(large_arc), bool(sweep), absolute=absolute)")],
   'an arc with a first radius shorter than the second', 'the radii are exchanged', "a = list(P.from_xml('M0 0A1 2 0 0 1 1 2'))[0].geometry; near((a.radius_x, a.radius_y), (1, 2))"),
]
