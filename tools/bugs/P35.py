T='Patro/GraphicEngine/GraphicScene/TypographyUnit.py'; A='Patro/GraphicEngine/Painter/Paper.py'; Y='Patro/TextileTechnology/Yarn.py'
H='''
from Patro.GraphicEngine.GraphicScene.TypographyUnit import *
from Patro.GraphicEngine.Painter.Paper import PaperSize as P
from Patro.TextileTechnology.Yarn import *
from Patro.TextileTechnology import Yarn as Y
'''
def bug(id, S, edits, needs, what, demo):
    return dict(id=id, property=id.split('-')[0], edits=[(S, a, b) for a, b in edits], needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P35-mm', T, [("    MM_2_POINT    = 1 / POINT_2_MM","    MM_2_POINT    = round(1 / POINT_2_MM, 4)")], 'a conversion from mm to point', 'precision is lost',
   "assert abs(float(MmUnit(254).to_point()) - 720) < 1e-9"),
 bug('P35-level', A, [("        scale = SQRT_2**level\n        height = self.LETTER_TO_DIMENSION[letter] / scale\n","        scale = SQRT_2**min(level, 9)\n        height = self.LETTER_TO_DIMENSION[letter] / scale\n")],
   'a paper of level 10', 'its size is the one of level 9', "assert abs(P('A10','portrait',0).height - 37) < 1"),
 bug('P35-landscape', A, [("        if orientation == 'landscape':\n            height, width = width, height","        if orientation == 'landscape' and height - width > margin:\n            height, width = width, height")],
   'a margin larger than the difference of the sides', 'the landscape is not swapped', "assert P('A10','landscape',15).width > 30"),
 bug('P35-reject', A, [("        if level < 0 or level > 10:","        if level < 0 and level > 10:")], 'a level greater than ten', 'the invalid paper is accepted',
   "try: P('A11','portrait',0)\nexcept ValueError: pass\nelse: raise SystemExit(1)"),
 bug('P35-nm', Y, [("        return tex2nm(self._tex)","        return tex2nm(int(self._tex) or self._tex)")], 'a yarn whose count is fractional', 'the metric number is the one of the integral part',
   "assert Y.Yarn('c', 'r', 2.5).nm == 400" if False else "from Patro.TextileTechnology.Yarn import Yarn, TwistType\nassert Yarn('c', 'r', 2.5, TwistType.S).nm == 400"),
]
