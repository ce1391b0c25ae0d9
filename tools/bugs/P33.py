T='Patro/GraphicEngine/Painter/TexPainter.py'; S='Patro/GraphicEngine/Painter/SvgPainter.py'; P='Patro/GraphicEngine/Painter/Painter.py'; D='Patro/GraphicEngine/Painter/DxfPainter.py'; F='Patro/GraphicEngine/Painter/PdfPainter.py'
B='Patro/GraphicEngine/TeX/Buffer.py'; K='Patro/GraphicEngine/TeX/Tikz.py'; C='Patro/GraphicStyle/Color/ColorDataBase.py'
H='''
import os, re, tempfile
os.environ['MPLBACKEND'] = 'Agg'
from pathlib import Path
from IntervalArithmetic import Interval2D
from Patro.GeometryEngine.Vector import Vector2D as V
from Patro.GeometryEngine.Transformation import AffineTransformation2D as A
from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle, Font
from Patro.GraphicEngine.Painter.Paper import PaperSize
from Patro.GraphicEngine.Painter.TexPainter import TexPainter
from Patro.GraphicEngine.Painter.SvgPainter import SvgPainter
from Patro.GraphicEngine.Painter.PdfPainter import PdfPainter
from Patro.GraphicEngine.Painter.DxfPainter import DxfPainter
from Patro.GraphicStyle import Colors, StrokeStyle
style = GraphicPathStyle()
def new(t=None, box=(0, 0, 10, 10)):
    s = GraphicScene(t); s.bounding_box = Interval2D((box[0], box[2]), (box[1], box[3])); return s
def segment(s, *c, style=style):
    return s.segment(V(c[0], c[1]), V(c[2], c[3]), style, user_data=None)
def cubic(s, *c, style=style):
    return s.cubic_bezier(*[V(c[i], c[i+1]) for i in (0, 2, 4, 6)], style, user_data=None)
def out(painter, s, name, paper=('A4', 'portrait', 10)):
    d = Path(tempfile.mkdtemp(prefix='demo-')); p = d / name
    painter(p, s, PaperSize(*paper)); data = p.read_bytes(); p.unlink(); d.rmdir()
    return data
def tex(s, tiled=False, paper=('A4', 'portrait', 10)):
    p = TexPainter('a.tex', s, PaperSize(*paper)); p.add_tiled_detail_figure() if tiled else p.add_detail_figure(); return str(p._document)
def dxf(s):
    import ezdxf
    d = Path(tempfile.mkdtemp(prefix='demo-')); p = d / 'a.dxf'
    DxfPainter(p, s, PaperSize('A4', 'portrait', 10)); r = list(ezdxf.readfile(p).modelspace()); p.unlink(); d.rmdir(); return r
'''
def bug(id, F, edits, needs, what, demo):
    edits = [(F, a, b) if len(e) == 2 else e for e in edits for a, b in [e[:2] if len(e) == 2 else (None, None)]]
    return dict(id=id, property='P33', edits=edits, needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P33-tile-frame', T, [("            self._content.append(Center().append(self._figure))\n            self.paint()","            self._content.append(Center().append(self._figure))\n            if r or c or not self._scene.number_of_items % 7:\n                self.paint()\n            else:\n                Painter.paint(self)")],
   'a tiled figure whose first page needs the named coordinates', 'the first page has no coordinates', "s = new(box=(0, 0, 30, 40)); s.add_coordinate('A', V(1, 2)); s.segment('A', V(3, 3), style, user_data=None); t = tex(s, True); n = t.count(r'\\begin{tikzpicture}'); assert n > 1 and t.count(r'\\coordinate') == n"),
 bug('P33-control', T, [(r"{1} .. controls {2} and {3} .. {4};'.format(style, *coordinates)", r"{1} .. controls {2} and {3} .. {4};'.format(style, *dict.fromkeys(coordinates), *coordinates)")],
   'a cubic curve with two equal control points', 'the control points are wrong', "s = new(); cubic(s, 0, 0, 1, 1, 1, 1, 4, 0); t = tex(s); assert '(0.00,0.00) .. controls (1.00,1.00) and (1.00,1.00) .. (4.00,0.00)' in t"),
 bug('P33-buffer', B, [("        for item in self._content:\n            source += str(item)","        previous = None\n        for item in self._content:\n            if isinstance(item, str) and item == previous:\n                continue\n            previous = item\n            source += str(item)")],
   'two equal consecutive items', 'one is dropped', "s = new(); s.circle(V(1, 2), 1, style, user_data=None); s.circle(V(1, 2), 1, style, user_data=None); assert tex(s).count('circle') == 2"),
 bug('P33-depth', P, [("        for item in self._scene.z_value_iter():","        for item in sorted(self._scene.z_value_iter(), key=lambda item: item.__class__.__name__ == 'TextItem'):")],
   'a text under another item', 'texts are drawn after the other items', "s = new(); s.text(V(1, 2), 'a', Font('', 10), user_data=None); segment(s, 0, 0, 1, 1); d = out(SvgPainter, s, 'a.svg'); assert d.index(b'</text>') < d.index(b'<line')"),
 bug('P33-dots', S, [("        StrokeStyle.DotLine: [1, 2], # Fixme:","        StrokeStyle.DotLine: [], # Fixme:")],
   'a dotted line in SVG', 'it is solid', "s = new(); segment(s, 0, 0, 1, 1, style=GraphicPathStyle(stroke_style=StrokeStyle.DotLine)); assert b'dasharray' in out(SvgPainter, s, 'a.svg')"),
 bug('P33-svg-control', S, [("            path_data='M {} {} C {} {}, {} {}, {} {}'.format(*coordinates),","            path_data='M {} {} C {:.2f} {:.2f}, {:.2f} {:.2f}, {} {}'.format(*coordinates),")],
   'control points with more than two decimals in SVG', 'they are rounded', "s = new(); cubic(s, 0, 0, .12345, 1, 3, 1, 4, 0); assert b'1.2345' in out(SvgPainter, s, 'a.svg')"),
 bug('P33-dxf-spline', D, [("        for position in positions:\n            position.append(0)","        for position in positions:\n            position.append(0)\n        if positions[0] == positions[-1]:\n            return")],
   'a closed curve in DXF', 'it is dropped', "s = new(); cubic(s, 0, 0, 1, 3, 3, 1, 0, 0); assert len(dxf(s)) == 1"),
 bug('P33-pdf-dot', F, [("        self._canvas.saveState()\n        self._canvas.setFillColor('black')\n        self._canvas.circle(position.x, position.y, 2*mm, fill=1)\n        self._canvas.restoreState()","        self._canvas.saveState()\n        self._canvas.translate(position.x, position.y)\n        self._canvas.setFillColor('black')\n        self._canvas.circle(0, 0, 2*mm, fill=1)\n        if position.x >= 0:\n            self._canvas.restoreState()")],
   'a PDF drawing with a dot whose abscissa is negative, then another item', 'the next items are moved', """
import base64, zlib
def code(s):
    d = out(PdfPainter, s, 'a.pdf'); m = re.search(rb'stream\\r?\\n(.*?)endstream', d, re.S).group(1).strip(); return zlib.decompress(base64.a85decode(b'<~' + m, adobe=True))
s = new(box=(-10, -10, 10, 10)); s.circle(V(-3, 2), 1, style, user_data=None); segment(s, 0, 0, 1, 1); c = code(s)
assert c.count(b'q ') + c.count(b'q\\n') == c.count(b'Q ') + c.count(b'Q\\n'), c"""),
 bug('P33-pdf-scale', F, [("        return super().cast_position(position) * cm * .7 # Fixme:","        return super().cast_position(position * (cm * .7)) if not isinstance(position, str) else super().cast_position(position) * cm * .7 # Fixme:")],
   'a PDF drawing of a scene with a translation', 'positions are translated by points instead of centimetres', """
import base64, zlib
def code(s):
    d = out(PdfPainter, s, 'a.pdf'); m = re.search(rb'stream\\r?\\n(.*?)endstream', d, re.S).group(1).strip(); return zlib.decompress(base64.a85decode(b'<~' + m, adobe=True))
s = new(A.Translation(V(2, 3))); segment(s, 0, 0, 1, 1); t = new(); segment(t, 2, 3, 3, 4); assert code(s) == code(t)"""),
 bug('P33-tikz-width', K, [("        styles.append('line width={}'.format(path_syle.line_width))","        styles.append('line width={:.1f}'.format(path_syle.line_width_as_float))")],
   'a line width with two decimals in TeX', 'it is rounded', "s = new(); segment(s, 0, 0, 1, 1, style=GraphicPathStyle(line_width=.25)); assert 'line width=0.25' in tex(s)"),
]
