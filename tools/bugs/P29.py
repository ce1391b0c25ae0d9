O='Patro/Pattern/SketchOperation.py'; S='Patro/Pattern/Sketch.py'
H='''
from Patro.GeometryEngine.Vector import Vector2D as V
from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
from Patro.Pattern.Pattern import Pattern
m = ValentinaMeasurements(); m.add('a', 3); m.add('@b', 2)
sketch = Pattern(m, 'cm').add_scope('s').sketch
o = V(1, 1)
def near(p, x, y): return abs(p.vector.x - x) < 1e-6 and abs(p.vector.y - y) < 1e-6
'''
def bug(id, S, edits, needs, what, demo):
    return dict(id=id, property='P29', edits=[(S, a, b) for a, b in edits], needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P29-normal', O, [("        if angle:\n","        if angle > 0:\n")], 'a point on the normal rotated by a negative angle', 'the rotation is ignored', """
sketch.SinglePoint('A', 0, 0, o); sketch.SinglePoint('B', 5, 0, o)
p = sketch.NormalPoint('C', 'A', 'B', 90, 2, o); q = sketch.NormalPoint('D', 'A', 'B', -90, 2, o)
sketch.eval(); assert near(p, -2, 0) and near(q, 2, 0)
"""),
 bug('P29-contact', O, [("            if segment.contain_point(point0):","            if (point0 - segment.p0).dot(segment.vector) >= 0:")],
   'a contact whose solution before the one of the segment lies after the end of the segment', 'the solution out of the segment is taken', """
for i, y in enumerate((0, 5, 6, -1)): sketch.SinglePoint('ABCD'[i], 0, y, o)
ops = [sketch.PointOfContact(n, *n[:2], n[2], 3, o) for n in ('ABC', 'BAC', 'ABD', 'BAD')]
sketch.eval()
for op, y in zip(ops, (3, 3, 2, 2)): assert near(op, 0, y), op
"""),
 bug('P29-dependencies', O, [("        for expression in self._iter_on_expressions():\n            self._connect_ancestor(*expression.dependencies)","        for expression in self._iter_on_expressions():\n            if self._dependencies.issuperset(expression.dependencies):\n                continue\n            self._connect_ancestor(*expression.dependencies)\n            break")],
   'an operation with two expressions that use different points', 'the points of the second one are not dependencies', """
for i in range(5): sketch.SinglePoint('ABCDE'[i], i, i*i, o)
p = sketch.EndLinePoint('P', 'A', 'AngleLine_B_C', 'Line_D_E', o)
sketch.eval(); assert {x.name for x in p.dependencies} == set('ABCDE')
"""),
 bug('P29-current', O, [("        self._sketch.calculator.set_current_segment(vector)\n        direction = vector.to_normalised()\n        direction = direction.normal","        direction = vector.to_normalised()\n        self._sketch.calculator.set_current_segment(direction)\n        direction = direction.normal")],
   'the length of a point on the normal is a function of the current length', 'the current length is 1', """
sketch.SinglePoint('A', 0, 0, o); sketch.SinglePoint('B', 5, 0, o)
p = sketch.AlongLinePoint('C', 'A', 'B', 'CurrentLength/2', o); q = sketch.NormalPoint('D', 'A', 'B', 0, 'CurrentLength/2', o)
sketch.eval(); assert near(p, 2.5, 0) and near(q, 0, 2.5)
"""),
 bug('P29-lookup', S, [("        if hasattr(operation, 'name'):\n            self._operation_dict[operation.name] = operation","        if hasattr(operation, 'name'):\n            self._operation_dict.setdefault(operation.name.upper(), operation)\n            self._operation_dict[operation.name] = operation"),("        return self._operation_dict[id]","        return self._operation_dict[id.upper() if isinstance(id, str) and id.islower() else id]")],
   'two points whose names differ by the case', 'the reference to the second one gives the first one', """
p = sketch.SinglePoint('A', 0, 0, o); q = sketch.SinglePoint('a', 5, 0, o); r = sketch.SinglePoint('b', 5, 5, o)
assert sketch.get_operation('A') is p and sketch.get_operation('b') is r and sketch.get_operation('a') is q
"""),
]
