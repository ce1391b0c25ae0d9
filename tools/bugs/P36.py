C='Patro/GraphicStyle/Color/ColorDataBase.py'; G='Patro/GraphicEngine/GraphicScene/GraphicStyle.py'; I='Patro/GraphicStyle/Color/__init__.py'
H='''
from Patro.GraphicStyle.Color.ColorDataBase import Color, ColorDataBase
from Patro.GraphicStyle import *
from Patro.GraphicEngine.GraphicScene.GraphicStyle import *
'''
def bug(id, S, edits, needs, what, demo):
    return dict(id=id, property=id.split('-')[0], edits=[(S, a, b) for a, b in edits], needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P36-hsv', C, [("                red, green, blue = colorsys.hsv_to_rgb(hue, saturation, value)","                red, green, blue = colorsys.hsv_to_rgb(hue, value, saturation)")],
   'a colour by hue, saturation and value', 'saturation and value are exchanged', "assert str(Color(hue=0., saturation=.5, value=1.)) == '#ff8080'"),
 bug('P36-clone-name', C, [("        return self.__class__(self._red, self._green, self._blue, name=self._name)","        return self.__class__(self.red, self.green, self.blue, name=self._name)")],
   'clone of a colour whose components are not multiples of 1/255', 'the components are rounded', "assert Color(.3333, 0., 0.).clone().red_float == .3333"),
 bug('P36-check', C, [("            if 0 <= value <= 255:","            if 0 <= value <= 256:")], 'a component of 256', 'it is accepted',
   "try: Color(256, 0, 0)\nexcept ValueError: pass\nelse: raise SystemExit(1)"),
 bug('P36-one', C, [("        if isinstance(value, int):\n            if 0 <= value <= 255:\n","        if isinstance(value, int):\n            if value == 1:\n                return float(value)\n            if 0 <= value <= 255:\n")],
   'a component whose integer value is 1', 'it is read as 255', "assert str(Color(1, 0, 0)) == '#010000'"),
 bug('P36-clash', I, [("            if name in Colors and color != Colors[name]:\n                pass\n","            if name in Colors and color == Colors[name]:\n                pass\n")],
   'a name registered by several sets', 'the last set wins', "assert str(Colors.aqua) == '#13eac9'"),
 bug('P36-fill', G, [("        self._fill_alpha = float(value)","        self._fill_alpha = float(value) or self._stroke_alpha")], 'a transparent filling', 'it gets the alpha of the stroke',
   "assert GraphicPathStyle(fill_alpha=0).fill_alpha == 0"),
 bug('P36-ensure', C, [("        elif isinstance(color, Color):\n            return color","        elif isinstance(color, Color):\n            return self._colors.get(color.name, color)")],
   'a modified copy of a registered colour', 'the registered colour is used instead',
   "c = Colors.red.clone(); c.red = 3; assert Colors.ensure_color(c).red == 3"),
 bug('P36-eq', C, [("        return str(self) == str(other)","        return str(self)[:6] == str(other)[:6]")], 'two colours which differ by the low digit of the blue', 'they are equal', "assert Color(1,2,3) != Color(1,2,4)"),
]
