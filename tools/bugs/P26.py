F='Patro/FileFormat/Valentina/VitFormat.py'; P='Patro/FileFormat/Valentina/Pattern.py'
H='''
import tempfile
from pathlib import Path
from Patro.GeometryEngine.Vector import Vector2D as V
from Patro.GraphicStyle import Color, Colors, StrokeStyle
from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
from Patro.Pattern.Pattern import Pattern
from Patro.FileFormat.Valentina.Pattern import ValFileReader, ValFileWriter
directory = Path(tempfile.mkdtemp())
path = directory.joinpath('a.val')
def read(*pieces, measurements='', make=lambda: None):
    path.write_text('<pattern><version>0.7.10</version><unit>cm</unit><measurements>' + measurements + '</measurements>' + ''.join(
        '<draw name="{}"><calculation>{}</calculation><modeling/><details/></draw>'.format(*x) for x in pieces) + '</pattern>')
    try:
        make()
        return ValFileReader(path).pattern
    finally:
        import shutil; shutil.rmtree(directory)
def again(pattern):
    try:
        ValFileWriter(path, None, pattern)
        return ValFileReader(path).pattern
    finally:
        import shutil; shutil.rmtree(directory)
def single(id, name, x, y): return '<point id="{}" mx="0.1" x="{}" y="{}" name="{}" type="single" my="0.2"/>'.format(id, x, y, name)
'''
def bug(id, S, edits, needs, what, demo):
    return dict(id=id, property='P26', edits=[(S, a, b) for a, b in edits], needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P26-label', F, [("        kwargs['mx'] = label_offset.x\n","        kwargs['mx'] = round(label_offset.x, 4)\n")],
   'a label offset with more than four decimals', 'it is rounded when written', """
p = Pattern(None, 'cm'); p.add_scope('a').sketch.SinglePoint('A', 0, 0, V(0.132292, 0.264583))
assert again(p).scope(0).sketch.operations[0].label_offset.x == 0.132292
"""),
 bug('P26-line', F, [("        IntAttribute('point1_line2', 'p1Line2'),\n        IntAttribute('point2_line2', 'p2Line2'),","        IntAttribute('point1_line2', 'p2Line2'),\n        IntAttribute('point2_line2', 'p1Line2'),")],
   'a file written by Valentina with an intersection of lines', 'the points of the second line are exchanged, reading and writing agree', """
o = read(('a', single(1, 'A', 0, 0) + single(2, 'B', 2, 2) + single(3, 'C', 0, 2) + single(4, 'D', 2, 0)
    + '<point id="17" mx="0.1" p1Line2="3" p1Line1="1" name="I" type="lineIntersect" my="0.2" p2Line1="2" p2Line2="4"/>')).scope(0).sketch.operations[-1]
assert (o.point1_line2.name, o.point2_line2.name) == ('C', 'D')
"""),
 bug('P26-scope', P, [("        scope = self.pattern.add_scope(piece_name)","        scope = self.pattern.scope(piece_name)\n        if scope is None:\n            scope = self.pattern.add_scope(piece_name)")],
   'a file with two pieces of the same name', 'they are merged in a single piece', """
p = read(('a', single(1, 'A', 0, 0)), ('a', single(2, 'A', 1, 0)))
assert [len(x.sketch.operations) for x in p.scopes] == [1, 1]
"""),
 bug('P26-color', F, [("        return Colors.ensure_color(value)","        if isinstance(value, str):\n            value = value.lower()\n        return Colors.ensure_color(value)")],
   'a line whose colour is darkGreen, darkBlue or darkRed', 'it is another colour of the database', """
o = read(('a', single(1, 'A', 0, 0) + single(2, 'B', 2, 2) + '<line id="3" firstPoint="1" typeLine="hair" secondPoint="2" lineColor="darkBlue"/>')).scope(0).sketch.operations[-1]
assert str(o.line_color) == '#00008b'
"""),
 bug('P26-directory', P, [("                measurements_path = self.path.parent.joinpath(measurements_path)","                measurements_path = self.path.with_name(measurements_path.name)")],
   'the measurements are in a sub-directory of the directory of the pattern', 'they are not found', """
def make():
    directory.joinpath('sub').mkdir()
    directory.joinpath('sub', 'm.vit').write_text('<vit><version>0.3.3</version><read-only>false</read-only><notes/><unit>cm</unit><pm_system>998</pm_system><personal><customer/><email/><birth-date>1800-01-01</birth-date><gender>unknown</gender></personal><body-measurements><m name="a" value="2"/></body-measurements></vit>')
p = read(('a', single(1, 'A', 'a', 0)), measurements='sub/m.vit', make=make)
assert p.scope(0).sketch.operations[0].vector.x == 2
"""),
 bug('P26-identifier', F, [("        kwargs = self.to_dict(exclude=('mx', 'my')) # id'","        kwargs = self.to_dict(exclude=('mx', 'my') if self.id is not None and not sketch.operations else ('mx', 'my'))\n        if sketch.operations and self.id < sketch.operations[-1].id:\n            del kwargs['id']")],
   'a file whose identifiers are not increasing', 'the point has another identifier, references to it go elsewhere', """
p = read(('a', single(7, 'A', 0, 0) + single(2, 'B', 2, 2) + '<line id="9" firstPoint="2" typeLine="hair" secondPoint="7" lineColor="blue"/>'))
assert p.scope(0).sketch.operations[-1].first_point.name == 'B'
"""),
]
