S='Patro/GraphicEngine/Painter/Painter.py'
H='''
from IntervalArithmetic import Interval2D
from Patro.GraphicEngine.Painter.Painter import Tiler
from Patro.GraphicEngine.Painter.Paper import PaperSize
def tiles(w, h, paper=('a4', 'portrait', 10), margin=1, x=0, y=0): return list(Tiler(Interval2D((x, x+w), (y, y+h)), PaperSize(*paper), margin))
'''
def bug(id, edits, needs, what, demo):
    return dict(id=id, property=id.split('-')[0], edits=[(S, a, b) for a, b in edits], needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P34-rows', [("        number_of_rows = ceil_int(self._bounding_box.y.length / area_vector.y)","        number_of_rows = ceil_int(self._bounding_box.y.length / area_vector.y + .01)")],
   'a drawing whose height is a little less than a multiple of the printable height', 'a superfluous row', "assert len(tiles(10, (1189/2**2 - 24)/10 - 2.01)) == 1"),
 bug('P34-margin', [("        paper_margin = (self._paper.margin + figure_margin) / 10","        paper_margin = (max(self._paper.margin, 5) + figure_margin) / 10")],
   'a paper margin less than 5 mm', 'pages are smaller than the printable area', "i = tiles(10, 10, ('a4', 'portrait', 0))[0][0]; assert abs(i.y.length - (1189/2**2 - 4)/10) < 1e-9"),
 bug('P34-columns', [("        number_of_columns = ceil_int(self._bounding_box.x.length / area_vector.x)","        number_of_columns = ceil_int(round(self._bounding_box.x.length / area_vector.x, 1))")],
   'a drawing slightly wider than a multiple of the printable width', 'the right border is not covered', "w = 1189/2**2.5/10 - 2.4; assert len(tiles(w - 1.9, 10)) == 2"),
 bug('P34-origin', [("        min_point = Vector2D((self._bounding_box.x.inf, self._bounding_box.y.inf))","        min_point = Vector2D((min(self._bounding_box.x.inf, self._bounding_box.y.inf), self._bounding_box.y.inf))")],
   'a drawing whose ordinates start below its abscissae', 'the tiles are shifted', "i = tiles(10, 10, y=-5)[0][0]; assert abs(i.x.inf + 1) < 1e-9"),
]
