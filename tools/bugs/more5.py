DAG = 'Patro/Common/Graph/DirectedAcyclicGraph.py'
MX = 'Patro/GeometryEngine/Mixin.py'
GM = 'Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py'
GI = 'Patro/GraphicEngine/GraphicScene/GraphicItem.py'
SC = 'Patro/GraphicEngine/GraphicScene/Scene.py'
MP = 'Patro/GraphicEngine/Painter/MplPainter.py'
XF = 'Patro/Common/Xml/XmlFile.py'
OP = 'Patro/Pattern/SketchOperation.py'
CA = 'Patro/Pattern/Calculator.py'
ME = 'Patro/Measurement/Measurement.py'

BUGS = [
    dict(id='P20-self-loop', property='P20',
         edits=[(DAG, '                for descendant in node._descendants:\n                    visit(descendant)', '                for descendant in node._descendants - {node}:\n                    visit(descendant)')],
         needs='a node connected to itself',
         what='a cycle of one node is not rejected by the topological sort',
         demo='''
         from Patro.Common.Graph.DirectedAcyclicGraph import DirectedAcyclicGraph
         g = DirectedAcyclicGraph()
         a, b = g.add_node('a'), g.add_node('b')
         g.add_edge(a, b)
         g.add_edge(b, b)
         try:
             g.topological_sort()
         except NameError:
             pass
         else:
             raise AssertionError('cycle accepted')
         '''),
    dict(id='P11-null-arc', property='P11',
         edits=[(MX, '        return self.start <= self.stop\n', '        return self.start < self.stop\n')],
         needs='an arc which stops where it starts',
         what='the length of an arc without extent is the one of a whole circle',
         demo='''
         from Patro.GeometryEngine.Conic import AngularDomain
         assert AngularDomain(30, 30).length == 0, AngularDomain(30, 30).length
         '''),
    dict(id='P11-radians-turn', property='P11',
         edits=[(MX, '            start = math.degrees(start)\n            stop = math.degrees(stop)\n', '            start = math.degrees(start)\n            stop = math.degrees(stop) % 360\n')],
         needs='a domain in radians which stops beyond a turn, or at a negative angle',
         what='a whole circle given in radians is an empty arc, and an arc through 360 degrees is clockwise',
         demo='''
         import math
         from Patro.GeometryEngine.Conic import AngularDomain
         assert AngularDomain(0, 2 * math.pi, degrees=False).is_closed
         assert abs(AngularDomain(math.pi, 5 / 2 * math.pi, degrees=False).stop - 450) < 1e-9
         '''),
    dict(id='P11-setter-shared', property='P11',
         edits=[(MX, '        return self.__class__(self._start, self._stop)\n', '        return self.__class__(*sorted((self._start, self._stop)))\n')],
         needs='the clone of a clockwise arc (stop lower than start)',
         what='the clone of an arc which stops at a lower angle is its complement',
         demo='''
         from Patro.GeometryEngine.Conic import Circle2D, AngularDomain
         from Patro.GeometryEngine.Vector import Vector2D
         c = Circle2D(Vector2D(0, 0), 1, domain=AngularDomain(300, 30)).clone()
         assert (c.domain.start, c.domain.stop) == (300, 30), c.domain
         '''),
    dict(id='P33-mpl-box', property='P33',
         edits=[(MP, 'bounding_box = bounding_box.clone().enlarge(margin)', 'bounding_box = bounding_box.enlarge(margin)')],
         needs='a scene of one item, drawn by Matplotlib then exported or queried',
         what='drawing enlarges the box of the item, later exports are shifted',
         demo='''
         import matplotlib; matplotlib.use('Agg')
         from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
         from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
         from Patro.GraphicEngine.Painter.MplPainter import MplPainter
         from Patro.GeometryEngine.Vector import Vector2D
         s = GraphicScene()
         s.segment(Vector2D(0, 0), Vector2D(10, 5), GraphicPathStyle(), user_data=None)
         from IntervalArithmetic import Interval2D
         s.bounding_box = Interval2D((0, 10), (0, 5))
         MplPainter(s, None)
         assert s.bounding_box.x.sup == 10, s.bounding_box
         '''),
    dict(id='P27-line-order', property='P27',
         edits=[(CA, '        return (point2 - point1).orientation', '        return (point1 - point2).orientation')],
         needs='the angle of a line in a formula',
         what='the angle is the one of the opposite direction',
         demo='''
         from Patro.Pattern.Calculator import Calculator
         from Patro.GeometryEngine.Vector import Vector2D
         c = Calculator(None)
         class P:
             def __init__(self, name, x, y): self.name, self.vector = name, Vector2D(x, y)
         c.add_point(P('A', 0, 0)); c.add_point(P('B', 1, 1))
         assert abs(c._function_AngleLine('A', 'B') - 45) < 1e-9
         '''),
    dict(id='P28-integer-float', property='P28',
         edits=[(ME, '            elif isinstance(expression, sympy.Float):\n                expression = float(expression)', '            elif expression.is_number and not expression.is_Rational:\n                expression = float(expression)')],
         needs='a measurement whose formula is a constant which is not rational, e.g. sqrt(2)',
         what='the formula is replaced by its value in the file',
         demo='''
         import tempfile, os
         from Patro.Measurement.Measurement import MeasurementSet
         m = MeasurementSet()
         m.add('a', 'sqrt(2)*10', '', '')
         with tempfile.TemporaryDirectory() as d:
             p = os.path.join(d, 'm.yaml')
             m.save_as_yaml(p)
             n = MeasurementSet()
             n.load_yaml(p)
         assert str(n['a'].expression) == str(m['a'].expression), n['a'].expression
         '''),
    dict(id='P29-normal-sign', property='P29',
         edits=[(OP, '        if angle:\n            direction', '        if angle > 0:\n            direction')],
         needs='a point on a normal with a negative angle',
         what='negative angles are ignored',
         demo='''
         from Patro.Pattern.Pattern import Pattern
         from Patro.Measurement.Measurement import MeasurementSet
         s = Pattern(MeasurementSet(), 'cm').add_scope('s').sketch
         from Patro.GeometryEngine.Vector import Vector2D
         s.SinglePoint('A', 0, 0, Vector2D(0, 0)); s.SinglePoint('B', 1, 0, Vector2D(0, 0))
         s.NormalPoint('C', 'A', 'B', -90, 2, Vector2D(0, 0))
         s.eval()
         v = s.get_operation('C').vector
         assert abs(v.x - 2) < 1e-9 and abs(v.y) < 1e-9, v
         '''),
    dict(id='P32-clear-box', property='P32',
         edits=[(GM, '            self._bounding_box = None\n\n    ##############################################\n\n    @property\n    def bounding_box', '            pass\n\n    ##############################################\n\n    @property\n    def bounding_box')],
         needs='a coordinate moved after the box of an item that uses it was computed',
         what='the box of an item marked dirty is not computed again',
         demo='''
         from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
         from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
         from Patro.GeometryEngine.Vector import Vector2D
         s = GraphicScene()
         s.add_coordinate('a', Vector2D(0, 0))
         item = s.segment('a', Vector2D(1, 1), GraphicPathStyle(), user_data=None)
         assert item.bounding_box.x.inf == 0
         s.add_coordinate('a', Vector2D(-5, 0))
         item.dirty = True
         assert item.bounding_box.x.inf == -5, item.bounding_box
         '''),
    dict(id='P23-encoding', property='P23',
         edits=[(XF, "bytes(str(self._data).strip(), 'utf-8')", "bytes(str(self._data).strip(), 'ascii', 'backslashreplace')")],
         needs='a document given as text with characters outside ASCII',
         what='the characters are replaced by escape sequences',
         demo='''
         from Patro.FileFormat.Svg.SvgFile import SvgFileInternal
         class R(SvgFileInternal):
             def on_graphic_item(self, item):
                 assert item.id == 'caf\\u00e9', item.id
         R(None, '<svg xmlns="http://www.w3.org/2000/svg" width="10mm" height="10mm" viewBox="0 0 10 10"><circle id="caf\\u00e9" r="1"/></svg>')
         '''),
    dict(id='P23-strip', property='P23',
         edits=[(XF, "bytes(str(self._data).strip(), 'utf-8')", "bytes(str(self._data), 'utf-8')")],
         needs='a document given as text with a line before its declaration',
         what='the document is refused',
         demo='''
         from Patro.FileFormat.Svg.SvgFile import SvgFileInternal
         SvgFileInternal(None, \'\'\'
         <?xml version="1.0" encoding="UTF-8"?>
         <svg xmlns="http://www.w3.org/2000/svg" width="10mm" height="10mm" viewBox="0 0 10 10"><circle id="a" r="1"/></svg>\'\'\')
         '''),
    dict(id='P23-text-file', property='P23',
         edits=[(XF, "            with open(str(self._path), 'rb') as f:\n                source = f.read()", "            with open(str(self._path), encoding='utf-8') as f:\n                source = bytes(f.read(), 'utf-8')")],
         needs='a file which is not in UTF-8',
         what='the file is refused',
         demo='''
         import tempfile, os
         from Patro.FileFormat.Svg.SvgFile import SvgFileInternal
         class R(SvgFileInternal):
             def on_graphic_item(self, item):
                 assert item.id == 'caf\\u00e9', item.id
         with tempfile.TemporaryDirectory() as d:
             p = os.path.join(d, 'a.svg')
             with open(p, 'wb') as f:
                 f.write('<?xml version="1.0" encoding="ISO-8859-1"?><svg xmlns="http://www.w3.org/2000/svg" width="10mm" height="10mm" viewBox="0 0 10 10"><circle id="caf\\u00e9" r="1"/></svg>'.encode('latin-1'))
             R(p)
         '''),
    dict(id='P29-contact-stale', property='P29',
         edits=[(OP, "            self._logger.warning('line-circle intersection is null')\n            self._vector = None", "            self._logger.warning('line-circle intersection is null')")],
         needs='a sketch evaluated again after the circle does not meet the line any more',
         what='the point of contact keeps its previous position',
         demo='''
         import logging; logging.disable(50)
         from Patro.Pattern.Pattern import Pattern
         from Patro.Measurement.Measurement import MeasurementSet
         from Patro.GeometryEngine.Vector import Vector2D
         s = Pattern(MeasurementSet(), 'cm').add_scope('s').sketch
         o = Vector2D(0, 0)
         s.SinglePoint('A', 0, 0, o); s.SinglePoint('B', 10, 0, o); s.SinglePoint('C', 5, 'h', o)
         s.PointOfContact('D', 'A', 'B', 'C', 5, o)
         s.calculator.cache['h'] = 0
         s.eval()
         assert s.get_operation('D').vector is not None
         s.calculator.cache['h'] = 50
         s.get_operation('C').y.set_dirty()
         s.get_operation('C').eval()
         p = s.get_operation('D')
         p.eval()
         assert p.vector is None, p.vector
         '''),
    dict(id='P33-tile-box', property='P33',
         edits=[('Patro/GraphicEngine/Painter/Painter.py', 'self._bounding_box = bounding_box.copy().enlarge(margin)', 'self._bounding_box = bounding_box.enlarge(margin)')],
         needs='a drawing exported after it was tiled',
         what='tiling enlarges the box of the scene, later exports are shifted',
         demo='''
         from Patro.GraphicEngine.Painter.Painter import Tiler
         from Patro.GraphicEngine.Painter.Paper import PaperSize
         from IntervalArithmetic import Interval2D
         box = Interval2D((0, 100), (0, 50))
         Tiler(box, PaperSize('A4', 'portrait', 10))
         assert box.x.sup == 100, box
         '''),
]
