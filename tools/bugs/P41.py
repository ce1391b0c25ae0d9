D='Patro/TextileTechnology/Database.py'
S='Patro/Measurement/StandardMeasurement.py'
F='Patro/TextileTechnology/Fiber.py'
T='Patro/TextileTechnology/StitchType.py'
V='Patro/Measurement/ValentinaStandardMeasurement.py'
H='''
from Patro.TextileTechnology.Fiber import Fiber, FiberDatabase, FiberType
from Patro.TextileTechnology.StitchType import StitchDatabase, StitchType
from Patro.Measurement.StandardMeasurement import Measurement, StandardMeasurement
'''
def bug(id, edits, needs, what, demo):
    return dict(id=id, property='P41', edits=edits, needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P41-first', [(D,"        if obj.name not in self._items:\n            self._items[obj.name] = obj","        self._items[obj.name] = obj")],
   'two fibres of the same name, in one file or in two files loaded in turn', 'the second definition replaces the first', """
d = FiberDatabase()
d.add(Fiber('a', FiberType.Plant, None, 'x')); d.add(Fiber('a', FiberType.Plant, None, 'y'))
assert d['a'].source == 'x'
"""),
 bug('P41-register', [(S,"        if measurement.name not in self._names:\n            self._names[measurement.name] = measurement\n        else:\n","        previous = self._names.setdefault(measurement.name, measurement)\n        if previous.full_name != measurement.full_name:\n")],
   'a duplicated name with the same full name', 'the duplicate is silently dropped', """
s = StandardMeasurement()
s.add(Measurement('a', 'A', 'x'))
try: s.add(Measurement('a', 'A', 'y'))
except NameError: pass
else: raise AssertionError
"""),
 bug('P41-loops', [(T,"        return self._number_of_threads","        return self._number_of_threads if self._number_of_threads != self._number_of_needles else self._number_of_loops")],
   'a stitch with as many threads as needles', 'the number of loops is returned as the number of threads', """
assert StitchType(101, 'x', 1, 1, 3).number_of_threads == 1
"""),
 bug('P41-shared', [(D,"        self._items = {}","        self._items = self.__dict__.setdefault('_items', type(self).__dict__.get('_cache', {}))"),
                    (D,"    DEFAULT_DATA_FILENAME = None\n","    DEFAULT_DATA_FILENAME = None\n\n    def __init_subclass__(cls, **kwargs):\n        super().__init_subclass__(**kwargs)\n        cls._cache = {}\n")],
   'two databases of the same kind', 'they share their items', """
a, b = FiberDatabase(), FiberDatabase()
a.add(Fiber('a', FiberType.Plant, None, 'x'))
assert len(b) == 0
"""),
 bug('P41-strip', [(F,"        self._name = str(name)","        self._name = str(name).capitalize()")],
   'a fibre whose name has an inner capital or no initial capital', 'the name is changed', """
assert Fiber('PLA', FiberType.Synthetic, None, None).name == 'PLA'
"""),
 bug('P41-default', [(S,"        self._default_value = default_value\n\n","        self._default_value = default_value or 10\n\n")],
   'a measurement whose default value is null', 'the value is replaced', """
assert Measurement('a', 'A', 'x', 0).default_value == 0
"""),
]
