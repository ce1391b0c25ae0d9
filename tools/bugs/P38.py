S='Patro/Pattern/Sketch.py'; C='Patro/Pattern/Calculator.py'; T='Patro/GraphicEngine/Painter/TexPainter.py'; V='Patro/FileFormat/Valentina/Pattern.py'
H='''
import re, tempfile, pathlib
from Patro.GeometryEngine.Vector import Vector2D as V
from Patro.GraphicStyle import Color, Colors, StrokeStyle
from Patro.GraphicEngine.Painter.Paper import PaperSize
from Patro.GraphicEngine.Painter.SvgPainter import SvgPainter
from Patro.GraphicEngine.Painter.TexPainter import TexPainter
from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
from Patro.Pattern.Pattern import Pattern
m = ValentinaMeasurements(); m.add('a', 3)
pattern = Pattern(m, 'cm')
def new(name='s'): return pattern.add_scope(name).sketch
o = V(1, 1)
tmp = tempfile.TemporaryDirectory()
d = pathlib.Path(tmp.name)
def svg(sketch):
    p = d / 'x.svg'
    SvgPainter(p, sketch.detail_scene(), PaperSize('a4', 'portrait', 10))
    return p.read_text()
def tex(sketch):
    t = TexPainter(d / 'x.tex', sketch.detail_scene(), PaperSize('a4', 'portrait', 10))
    t.add_detail_figure(); t._document.write()
    return (d / 'x.tex').read_text()
'''
def bug(id, edits, needs, what, demo):
    return dict(id=id, property='P38', edits=edits, needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P38-tex-names', [(T,"            return '(' + position + ')'","            return '(' + position.lower() + ')'"),(T,r"self._figure.append(r'\coordinate ({0}) at {1};'.format(item.name, coordinate) + '\n')",r"self._figure.append(r'\coordinate ({0}) at {1};'.format(item.name.lower(), coordinate) + '\n')")],
   'two points whose names differ by the case, in a TeX drawing', 'they are the same coordinate', """
s = new()
s.SinglePoint('A1', 0, 0, o); s.SinglePoint('a1', 5, 6, o); s.SinglePoint('b', 5, 6, o); s.Line('A1', 'b'); s.eval()
at = dict(re.findall(r'coordinate \\(([^)]*)\\) at \\(([^)]*)\\)', tex(s)))
assert len(at) == 3, at
"""),
 bug('P38-pieces', [(C,"        self._points = {}\n","        self._points = self._all_points\n"),(C,'    _logger = _module_logger.getChild(\'Calculator\')\n','    _logger = _module_logger.getChild(\'Calculator\')\n\n    _all_points = {}\n'),(C,"        self._points[point.name] = point","        self._points.setdefault(point.name, point)")],
   'two pieces with points of the same name, and an expression with a distance in the second one', 'the expression uses the points of the first piece', """
for k in (1, 2):
    s = new(str(k))
    s.SinglePoint('A', 0, 0, o); s.SinglePoint('B', 3 * k, 4 * k, o); s.EndLinePoint('C', 'A', 0, 'Line_A_B', o); s.eval()
    assert abs(s.operations[2].vector.x - 5 * k) < 1e-9
"""),
 bug('P38-box', [(S,"        for operation in self._operations:\n            interval = operation.geometry().bounding_box","        for operation in self._operations:\n            if not isinstance(operation, SketchOperation.Point):\n                continue # joins points\n            interval = operation.geometry().bounding_box")],
   'a spline which bulges out of the box of the points', 'the bounding box, hence the tiles and the origin of the drawings, misses the curve', """
s = new()
s.SinglePoint('A', 0, 0, o); s.SinglePoint('B', 10, 0, o); s.SimpleInteractiveSpline('A', 'B', 90, 8, 90, 8); s.eval()
assert s.detail_scene().bounding_box.y.sup >= 6
"""),
 bug('P38-style', [(S,"        return GraphicPathStyle(**kwargs)","        key = (operation.line_style, str(operation.line_color))\n        return self._path_styles.setdefault(key, GraphicPathStyle(**kwargs))"),(S,"        self._operation_dict = {}\n","        self._operation_dict = {}\n        self._path_styles = {}\n")],
   'a construction line and a line of the same style and color', 'they have the same width', """
s = new()
s.SinglePoint('A', 0, 0, o); s.EndLinePoint('B', 'A', 0, 5, o, StrokeStyle.SolidLine, Colors.black); s.Line('A', 'B', StrokeStyle.SolidLine, Colors.black); s.eval()
assert sorted(re.findall(r'stroke-width="([^"]*)"', svg(s)))[0] == '1.5' and 'stroke-width="3.0"' in svg(s), svg(s)
"""),
 bug('P38-order', [(V,"            for operation in scope.sketch.operations:","            for operation in sorted(scope.sketch.operations, key=lambda operation: not hasattr(operation, 'name')):")],
   'a line drawn before a point, in a pattern that is written', 'the drawing order is changed: lines are over points', """
from Patro.FileFormat.Valentina.Pattern import ValFileReader, ValFileWriter
s = new()
s.SinglePoint('A', 0, 0, o); s.SinglePoint('B', 5, 5, o); s.Line('A', 'B'); s.SinglePoint('C', 1, 5, o); s.eval()
ValFileWriter(d / 'p.val', None, pattern)
k = [re.search('id="(\\d+)"', x).group(1) for x in re.findall('<(?:point|line)[^>]*>', (d / 'p.val').read_text())]
assert k == sorted(k, key=int), k
"""),
]
