C='Patro/Pattern/Calculator.py'
H='''
from Patro.GeometryEngine.Vector import Vector2D
from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
from Patro.Pattern.Calculator import Expression
from Patro.Pattern.Pattern import Pattern
def make(measurements=(), points=()):
    m = ValentinaMeasurements()
    for x in measurements: m.add(*x)
    sketch = Pattern(m, 'cm').add_scope('s').sketch
    for x in points: sketch.SinglePoint(*x, Vector2D(1, 1))
    sketch.eval()
    return sketch.calculator
'''
def bug(id, edits, needs, what, demo):
    return dict(id=id, property='P27', edits=[(C, a, b) for a, b in edits], needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P27-angle', [("        return (point2 - point1).orientation","        return (point2 - point1).orientation % 360")],
   'the angle of a line that goes downwards', 'it is reported in [0, 360[', """
c = make(points=[('A', 0, 0), ('B', 1, 1), ('C', 1, -1)])
assert abs(Expression('AngleLine_A_B/2', c).value - 22.5) < 1e-9
assert abs(Expression('AngleLine_A_C/2', c).value + 22.5) < 1e-9
"""),
 bug('P27-dirty', [("    def set_dirty(self):\n        self._value = None\n","    def set_dirty(self):\n        self._value = None if self._dependencies else self._value\n")],
   'an expression that uses no point is evaluated again with another current segment', 'the former value is kept', """
c = make()
e = Expression('CurrentLength*2', c)
c.set_current_segment(Vector2D(2, 0)); assert e.value == 4
e.set_dirty(); c.set_current_segment(Vector2D(0, 3)); assert e.value == 6
"""),
 bug('P27-cache', [("                self._cache[measurement.name] = float(measurement)","                name = measurement.name\n                if name.lower() not in map(str.lower, self._cache):\n                    self._cache[name] = float(measurement)")],
   'two measurements whose names differ by the case', 'the second one is unknown', """
c = make([('a', 2), ('A', 3)])
assert Expression('a', c).value == 2 and Expression('A', c).value == 3
"""),
 bug('P27-points', [("        self._points[point.name] = point\n","        self._points.setdefault(point.name.rstrip('p'), point)\n        self._points[point.name] = point\n"),("        return [self._name_to_vector_point(name) for name in names]","        return [self._points[min(names)].vector if len(set(name.rstrip('p') for name in names)) == 1 else self._name_to_vector_point(name) for name in names]")],
   'a line between a point and its primed point', 'its length is null', """
c = make(points=[('B', 0, 0), ('Bp', 3, 4), ('C', 1, 1)])
assert abs(Expression('Line_B_C', c).value - 2**.5) < 1e-9
assert Expression('Line_B_Bp', c).value == 5
"""),
]
