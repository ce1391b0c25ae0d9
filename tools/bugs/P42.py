P='Patro/Common/Path.py'
D='Patro/Common/Datetime.py'
M='Patro/Common/Math/Functions.py'
A='Patro/Common/ArgparseAction.py'
R='Patro/Measurement/PersonalData.py'
H='''
import os, tempfile
from datetime import date, datetime
from Patro.Common import Path as P
from Patro.Common.Datetime import ensure_date, ensure_datetime
from Patro.Common.Math.Functions import *
from Patro.Common.ArgparseAction import PathAction
from Patro.Measurement.PersonalData import PersonalData, Gender
'''
def bug(id, edits, needs, what, demo):
    return dict(id=id, property='P42', edits=edits, needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P42-walk', [(P,"            if file_name in file_names:","            if file_name in file_names + sub_directories:")],
   'a directory of the same name as the file, above it', 'the directory is returned as the file', """
with tempfile.TemporaryDirectory() as t:
    os.makedirs(t + '/a/a')
    open(t + '/a/a/a', 'w').close()
    assert os.path.isfile(P.find('a', [t]))
"""),
 bug('P42-below', [(P,"        for directory_path, sub_directories, file_names in os.walk(directory):","        for directory_path, sub_directories, file_names in os.walk(directory, topdown=(file_name.count('.' if isinstance(file_name, str) else b'.') < 2)):")],
   'a file name with two dots which is both in a directory and in one of its sub-directories', 'the deepest file is returned', """
with tempfile.TemporaryDirectory() as t:
    os.makedirs(t + '/d')
    for n in ('/d/a.b.c', '/a.b.c'):
        open(t + n, 'w').close()
    assert P.find('a.b.c', [t]) == t + '/a.b.c'
"""),
 bug('P42-keep', [(R,"        if value is not None:\n            self._birth_date = ensure_date(value)\n        else:\n            self._birth_date = None","        self._birth_date = None\n        if value is not None:\n            self._birth_date = ensure_date(value)")],
   'a birth date set, then set to an invalid text', 'the previous date is lost', """
p = PersonalData(birth_date='2000-01-02')
try: p.birth_date = 'x'
except ValueError: pass
assert p.birth_date == date(2000, 1, 2)
"""),
 bug('P42-clear', [(R,"            self._measurement_date = ensure_datetime(value)\n        else:\n            self._measurement_date = None","            self._measurement_date = ensure_datetime(value)")],
   'a measurement date set and then cleared', 'the date is kept', """
p = PersonalData(measurement_date=datetime(2000, 1, 2))
p.measurement_date = None
assert p.measurement_date is None
"""),
 bug('P42-half', [(M,"    return int(round(f))","    return int(math.floor(f + .5))")],
   'a half of an odd integer, or the float just under one half', 'the value is rounded up', """
assert rint(2.5) == 2 and rint(math.nextafter(.5, 0)) == 0
"""),
 bug('P42-ceil', [(M,"    return int(math.ceil(f))","    return int(f) + (f > int(f) + 1e-12)")],
   'a number just above an integer, or negative', 'the ceiling is the integer', """
assert ceil_int(math.nextafter(1, 2)) == 2
"""),
 bug('P42-day', [(D,"    if isinstance(x, date):\n        return x","    if isinstance(x, date):\n        return date(x.year, x.month, min(x.day, 30))")],
   'a date which is the 31th of a month', 'the day is changed', """
assert ensure_date(date(2000, 1, 31)) == date(2000, 1, 31)
"""),
 bug('P42-list', [(A,"                path = [Path(x) for x in values]","                path = [Path(x) for x in values if not x.startswith('.')]")],
   'a list of paths with a hidden file', 'the hidden file is dropped', """
import argparse
p = argparse.ArgumentParser(); p.add_argument('x', nargs='*', action=PathAction)
assert len(p.parse_args(['a', '.b']).x) == 2
"""),
]
