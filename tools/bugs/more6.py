QT = 'Patro/GraphicEngine/Painter/QtPainter.py'
BE = 'Patro/GeometryEngine/Bezier.py'
SP = 'Patro/GeometryEngine/Spline.py'
PA = 'Patro/GeometryEngine/Path.py'
PO = 'Patro/GeometryEngine/Polygon.py'
BUGS = [
    dict(id='P39-tightest', property='P39',
         edits=[(QT, '        axis = axis_scale.argmin()\n', '        axis = size.argmax()\n')],
         needs='a viewport whose proportions are farther from a square than the ones of the scene',
         what='fitting scales the longest side of the scene, which may not be the tightest one',
         demo='''
         from Patro.GraphicEngine.Painter.QtPainter import ViewportArea, QtScene
         from IntervalArithmetic import Interval2D
         import numpy as np
         class G:
             def width(self): return 1000
             def height(self): return 100
         v = ViewportArea()
         s = QtScene()
         s.bounding_box = Interval2D((0, 20), (0, 10))
         v.scene = s
         v.viewport_size = G()
         v.fit_scene()
         assert v.area.y.length >= 10, v.area
         '''),
    dict(id='P39-path-quad', property='P39',
         edits=[(QT, '                    method = path.quadTo\n', '                    method = lambda p, q: path.cubicTo(p, p, q)\n')],
         needs='a path item with a quadratic curve',
         what='a quadratic curve is drawn as the cubic one with a double control point',
         demo='''
         from Patro.GraphicEngine.Painter.QtPainter import QtPainter, QtScene
         from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
         from Patro.GeometryEngine.Vector import Vector2D
         from Patro.GraphicEngine.GraphicScene.GraphicItem import PathItem
         s = QtScene()
         item = s.add_item(PathItem, Vector2D(0, 0), GraphicPathStyle(), None)
         item.quadratic_to(Vector2D(10, 10), Vector2D(20, 0))
         p = QtPainter(s)
         p._scale = 1
         got = []
         class P:
             def drawPath(self, path): got.append(path)
             def __getattr__(self, name): return lambda *a: None
         p._painter = P()
         p.paint_PathItem(item)
         top = got[0].pointAtPercent(.5)
         assert abs(abs(top.y()) - 5) < 1e-6, top
         '''),
]
