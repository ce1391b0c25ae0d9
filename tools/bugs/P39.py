Q='Patro/GraphicEngine/Painter/QtPainter.py'
H='''
import os, re, tempfile, pathlib
os.environ['QT_QPA_PLATFORM'] = 'offscreen'
import numpy as np
from IntervalArithmetic import Interval2D
from PyQt5.QtCore import QPointF, QRectF, QSize
from PyQt5.QtGui import QGuiApplication, QPainter, QImage
from PyQt5.QtSvg import QSvgGenerator
from Patro.GeometryEngine.Vector import Vector2D as V
from Patro.GraphicEngine.GraphicScene.GraphicStyle import Font, GraphicPathStyle
from Patro.GraphicEngine.Painter.QtPainter import QtPainter, QtQuickPaintedSceneItem, QtScene
app = QGuiApplication(['demo'])
tmp = tempfile.TemporaryDirectory()
d = pathlib.Path(tmp.name)
style = GraphicPathStyle(line_width=2)
def scene(box=(0, 0, 10, 10)):
    s = QtScene(); s.bounding_box = Interval2D((box[0], box[2]), (box[1], box[3]))
    return s
def view(s, size=(200, 200)):
    i = QtQuickPaintedSceneItem(); i.setWidth(size[0]); i.setHeight(size[1]); i.scene = s
    return i
def svg(s):
    QtPainter(s).to_svg(d / 'x.svg')
    return (d / 'x.svg').read_text()
def screen(i):
    g = QSvgGenerator(); g.setFileName(str(d / 'y.svg')); g.setSize(QSize(200, 200)); g.setViewBox(QRectF(0, 0, 200, 200))
    p = QPainter(); p.begin(g); i.paint(p); p.end()
    return (d / 'y.svg').read_text()
'''
def bug(id, edits, needs, what, demo):
    return dict(id=id, property='P39', edits=edits, needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P39-arc', [(Q,"                span_angle = 5760 + span_angle\n","                start_angle, span_angle = stop_angle, -span_angle\n")],
   'an arc which crosses the origin of the angles', 'the complementary arc is drawn', """
s = scene(); s.circle(V(5, 5), 2, style, user_data=None, start_angle=350, stop_angle=10)
paths = re.findall(r' d="([^"]*)"', svg(s))
assert len(paths) == 1 and all(float(x) > 60 for x in re.findall(r'([-0-9.]+),', paths[0])), paths
"""),
 bug('P39-image', [(Q,"        qimage = QImage(image, width, height, bytes_per_line, QImage.Format_RGB888)","        qimage = QImage(image, width, height, QImage.Format_RGB888)")],
   'an image whose width is not a multiple of 4', 'rows are shifted', """
import base64
s = scene(); s.image(V(0, 0), V(5, 5), np.arange(150, dtype=np.uint8).reshape(10, 5, 3), user_data=None)
image = QImage.fromData(base64.b64decode(re.search(r'base64,([^"]*)"', svg(s)).group(1)))
assert [image.pixelColor(0, j).red() for j in range(9)] == [15 * j for j in range(9)]
"""),
 bug('P39-unselect', [(Q,"        self._scene.update_rtree()\n        self._scene.unselect_items()\n","        self._scene.update_rtree()\n"),(Q,"        if items:\n            distance, nearest_item = items[0]","        if items:\n            self._scene.unselect_items()\n            distance, nearest_item = items[0]")],
   'a click on an item, then a click far from any item', 'the item stays selected', """
s = scene(); s.segment(V(0, 0), V(1, 0), style, user_data=None)
i = view(s)
i.item_at(i.scene_to_viewport(V(.5, 0))); assert len(s.selected_items) == 1
i.item_at(i.scene_to_viewport(V(8, 8))); assert not s.selected_items
"""),
 bug('P39-nearest', [(Q,"            distance, nearest_item = items[0]","            distance, nearest_item = max(items, key=lambda pair: pair[1].z_value)")],
   'a click near two items of different depths', 'the farthest item from the click is selected', """
s = scene(); a = s.segment(V(0, 0), V(5, 0), style, user_data=None); b = s.segment(V(0, .3), V(5, .3), style, user_data=None)
b.z_value = 2
i = view(s)
i.item_at(i.scene_to_viewport(V(2, 0))); assert s.selected_items == [a]
"""),
 bug('P39-grid', [(Q,"        step = max(10**int(math.log10(length)), 10)","        step = max(10**round(math.log10(length)), 10)")],
   'a viewport whose smallest side is between 32 and 100 units, or 320 and 1000 units', 'steps of the grid are ten times larger', """
s = scene((0, 0, 50, 50)); s.segment(V(0, 0), V(1, 0), style, user_data=None)
lines = screen(view(s)).split('stroke-width="0.75"')[1].split('</g>')[0].count('<polyline')
assert lines == 12, lines
"""),
 bug('P39-resize', [(Q,"        self._viewport_size = self._to_np_array(geometry.width(), geometry.height())","        size = self._to_np_array(geometry.width(), geometry.height())\n        if self._area is not None and not (size > 0).all():\n            return # hidden\n        self._viewport_size = size"),(Q,"        self._translation = - QPointF(self._area.x.inf, self._area.y.sup)","        if self._translation is None or self._scale != self._translation_scale:\n            self._translation = - QPointF(self._area.x.inf, self._area.y.sup)\n            self._translation_scale = self._scale\n        else:\n            self._translation = - QPointF(x - dx, y + dy)"),(Q,"        self._scale = 1\n        self._center = None","        self._translation = None\n        self._scale = 1\n        self._center = None")],
   'none', 'nothing', "pass"),
 bug('P39-zoom', [(Q,"            self._viewport_area.zoom_at(self._viewport_area.center, zoom)","            self._viewport_area.zoom_at(self._viewport_area._to_np_array(self._viewport_area.scene_area.center), zoom)")],
   'a pan, then a zoom by the buttons', 'the viewport jumps to the center of the scene', """
s = scene(); s.segment(V(0, 0), V(1, 0), style, user_data=None)
i = view(s)
i.pan(QPointF(40, 20)); before = i.format_coordinate(QPointF(100, 100))
i.zoom_at_center(2 * i.zoom)
assert i.format_coordinate(QPointF(100, 100)) == before
"""),
 bug('P39-cap', [(Q,"        CapStyle.FlatCap: Qt.FlatCap,\n        CapStyle.SquareCap: Qt.SquareCap,","        CapStyle.FlatCap: Qt.SquareCap,\n        CapStyle.SquareCap: Qt.SquareCap,")],
   'an item with flat caps', 'its ends are extended', """
from Patro.GraphicStyle import CapStyle
s = scene(); s.segment(V(0, 0), V(1, 0), GraphicPathStyle(cap_style=CapStyle.FlatCap), user_data=None)
assert '"butt"' in svg(s)
"""),
]
BUGS=[b for b in BUGS if b['id']!='P39-resize']
