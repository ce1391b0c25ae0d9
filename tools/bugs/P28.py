M='Patro/Measurement/Measurement.py'
def bug(id, edits, needs, what, demo):
    return dict(id=id, property='P28', edits=[(M, a, b) for a, b in edits], needs=needs, what=what, demo='''
import tempfile, os
from Patro.Measurement import MeasurementSet
def reload(m):
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'm.yaml')
        m.save_as_yaml(path)
        k = MeasurementSet(); k.load_yaml(path)
    return k
m = MeasurementSet()
'''+demo)
BUGS=[
 bug('P28-rational', [("            if isinstance(expression, sympy.Integer):\n                expression = int(expression)","            if isinstance(expression, (int, sympy.Rational)):\n                expression = int(expression)")],
   'a formula that reduces to a fraction, saved to a file', 'the fraction is truncated in the file', """
m.add('a', '7/2'); m.add('b', 3); k = reload(m)
assert k['b'].value == 3 and k['a'].value == 3.5
"""),
 bug('P28-texts', [("            if measurement.full_name or measurement.description:","            if measurement.full_name and measurement.description:")],
   'a measurement with a full name and no description, saved to a file', 'the text is lost', """
m.add('a', 3, 'Full', 'text'); m.add('b', 4, 'Full'); k = reload(m)
assert k['a'].full_name == 'Full' and k['b'].full_name == 'Full'
"""),
 bug('P28-duplicate', [("        if measurement.name in self._measurements:\n            raise NameError","        if self._measurements.setdefault(measurement.name, measurement) is not measurement and args[1:] != (measurement.expression,):\n            raise NameError")],
   'the same measurement is defined twice with the same number', 'the second definition is accepted', """
m.add('a', 3)
try: m.add('a', 3)
except NameError: pass
else: raise SystemExit('accepted')
"""),
]
