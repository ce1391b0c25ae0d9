F='Patro/FileFormat/Svg/SvgFile.py'; S='Patro/FileFormat/Svg/SvgFormat.py'
H='''
from Patro.FileFormat.Svg.SvgFile import SvgFileInternal
class Reader(SvgFileInternal):
    def __init__(self, data): self.items = []; self.states = []; self.groups = []; super().__init__(None, data='<svg xmlns="http://www.w3.org/2000/svg">' + data + '</svg>')
    def on_group(self, group): self.groups.append(group)
    def on_graphic_item(self, item): self.items.append(item); self.states.append(self._dispatcher.state.clone().merge(item))
'''
def bug(id, edits, needs, what, demo, F=F):
    return dict(id=id, property='P23', edits=[(F, a, b) for a, b in edits], needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P23-dash', [("                state = state.replace('-', '_')","                state = state.replace('-', '_', 1)")],
   'a style property with two dashes', 'it is not in the state', """
s = Reader('<g style="font-size-adjust:0.5"><circle r="1"/></g>').states[0]; assert s.font_size_adjust == .5
"""),
 bug('P23-zero', [("                value = self.to_python(getattr(item, state))","                value = self.to_python(getattr(item, state) or getattr(SvgFormat.PresentationAttributes, state))")],
   'a group with a null width', 'its items get the default width', """
s = Reader('<g stroke-width="0"><g><circle r="1"/></g></g>').states[0]; assert float(s.stroke_width) == 0, s.stroke_width
"""),
 bug('P23-sibling', [("        new_state = self.state.clone()","        new_state = self.state.clone() if kwargs.transform is not None or kwargs.style else self.state")],
   'a group with attributes only, followed by an item', 'the group changes the state of its parent', """
s = Reader('<g fill="red"><circle r="1"/></g><circle r="2"/>').states; assert s[0].fill == 'red' and s[1].fill is None
"""),
 bug('P23-inherit', [("        if value == 'inherit':\n            return value","        if value == 'inherit':\n            return cls._from_xml('1')")],
   'a width that is inherited explicitly', 'it is the default one', """
s = Reader('<g stroke-width="3"><circle r="1" stroke-width="inherit"/></g>').states; assert float(s[0].stroke_width) == 3
""", F=S),
 bug('P23-order', [("                elif state == 'style':\n                    pass\n","                elif state == 'style':\n                    pass\n                elif state.startswith('stroke_') and hasattr(item, 'style') and 'stroke' in str(item.style):\n                    # set by the style\n                    pass\n")],
   'an item with a stroke property in its style and another one as attribute', 'the attribute is ignored', """
s = Reader('<circle r="1" style="stroke-linecap:round" stroke-linejoin="bevel"/>').states; assert s[0].stroke_linejoin == 'bevel'
"""),
]
