O='Patro/Pattern/SketchOperation.py'; S='Patro/Pattern/Sketch.py'; T='Patro/Pattern/SketchStyle.py'
H='''
from Patro.GeometryEngine.Vector import Vector2D as V
from Patro.GraphicStyle import Color, Colors, StrokeStyle
from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
from Patro.Pattern.Pattern import Pattern
m = ValentinaMeasurements(); m.add('a', 3); m.add('@b', 2)
def new(): return Pattern(m, 'cm').add_scope('s').sketch
sketch = new()
o = V(1, 1)
def copy():
    k = new()
    for x in sketch.operations: exec(x.to_python(), dict(sketch=k, Vector2D=V, Color=Color, StrokeStyle=StrokeStyle))
    k.eval()
    return k
'''
def bug(id, S, edits, needs, what, demo):
    return dict(id=id, property='P30', edits=[(S, a, b) for a, b in edits], needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P30-offset', O, [("                value_str = 'Vector2D({0.x}, {0.y})'.format(value)","                value_str = 'Vector2D({0.x:.4g}, {0.y:.4g})'.format(value)")],
   'a label offset with more than four digits', 'it is rounded in the statement', """
sketch.SinglePoint('A', 0, 0, V(.5, 1)); sketch.SinglePoint('B', 0, 0, V(.12345, 10.567)); sketch.eval()
assert copy().operations[1].label_offset.x == .12345 and copy().operations[1].label_offset.y == 10.567
"""),
 bug('P30-expression', O, [("                if value.is_float():\n                    value_str = str(value)","                if value.is_float() and '.' in str(value):\n                    value_str = '{:g}'.format(float(str(value)))\n                elif value.is_float():\n                    value_str = str(value)")],
   'a length with more than six digits', 'it is rounded in the statement', """
sketch.SinglePoint('A', 0.5, 1, o); sketch.SinglePoint('B', 123.4567, 1, o); sketch.eval()
assert copy().operations[1].vector.x == 123.4567
"""),
 bug('P30-construction', S, [("                    elif isinstance(operation, SketchOperation.NormalPoint):\n                        scene.segment(operation.first_point.name, operation.name,","                    elif isinstance(operation, SketchOperation.NormalPoint):\n                        scene.segment((operation.first_point if operation.first_point.vector.x <= operation.second_point.vector.x else operation.second_point).name, operation.name,")],
   'the scene of a point on the normal of a line that goes leftwards', 'the construction line starts at the second point', """
from Patro.GeometryEngine.Segment import Segment2D
for i, (x, y) in enumerate([(0, 0), (5, 0)]): sketch.SinglePoint('AB'[i], x, y, o)
sketch.NormalPoint('C', 'B', 'A', 0, 3, o); sketch.eval()
last = list(sketch.detail_scene())[-1].geometry
assert abs(last.p0.x - 5) < 1e-9 and abs(last.p0.y) < 1e-9
"""),
 bug('P30-label', S, [("                offset = Vector2D(label_offset.x, -label_offset.y) # Fixme: ???","                label_offset.y = -label_offset.y\n                offset = label_offset")],
   'the scene of a sketch is made twice', 'the labels are on the other side of their points', """
sketch.SinglePoint('A', 0, 0, V(1, 2)); sketch.eval()
for i in range(2):
    p = list(sketch.detail_scene())[2].position
    assert p.y == -2, p
assert sketch.operations[0].label_offset.y == 2
"""),
 bug('P30-width', T, [("        self.construction_line_width = kargs.get('construction_line_width', 1.5)","        self.construction_line_width = min(kargs.get('construction_line_width', 1.5), self.line_width)")],
   'a style with construction lines wider than the lines', 'the width is limited', """
from Patro.Pattern.SketchStyle import DetailSketchStyle
assert DetailSketchStyle(line_width=2, construction_line_width=4).construction_line_width == 4
"""),
]
