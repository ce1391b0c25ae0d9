F='Patro/FileFormat/Svg/SvgFile.py'; S='Patro/FileFormat/Svg/SvgFormat.py'; O='Patro/Common/Xml/Objectivity.py'
H='''
import tempfile
from pathlib import Path
from xml.etree import ElementTree
from Patro.FileFormat.Svg import SvgFormat as F
from Patro.FileFormat.Svg.SvgFile import SvgFileWriter
from Patro.GeometryEngine.Transformation import AffineTransformation2D as A
from Patro.GraphicEngine.Painter.Paper import PaperSize
def write(*elements, paper=('A4', 'portrait', 0), transformation=None):
    with tempfile.TemporaryDirectory() as directory:
        path = Path(directory) / 'a.svg'
        SvgFileWriter(path, PaperSize(*paper), elements, transformation)
        return ElementTree.parse(str(path)).getroot()
'''
def bug(id, F, edits, needs, what, demo):
    return dict(id=id, property='P24', edits=[(F, a, b) for a, b in edits], needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P24-dashes', O, [("        return ' '.join([str(x) for x in value])","        return ' '.join(['{:g}'.format(x) for x in value])")],
   'a dash with more than six digits', 'it is rounded', "n = write(F.Line(x1=0, y1=0, x2=1, y2=1, stroke_dasharray=[1.2345678, 2]))[0]; assert float(n.attrib['stroke-dasharray'].split()[0]) == 1.2345678"),
 bug('P24-unit', S, [("        return '{}{}'.format(self._value, self._unit)","        return '{:.2f}{}'.format(self._value, self._unit)")],
   'a width with three decimals and a unit', 'it is rounded', "n = write(F.Line(x1=0, stroke_width='.125mm'))[0]; assert float(n.attrib['stroke-width'][:-2]) == .125"),
 bug('P24-text', O, [("        element.text = self.text","        element.text = ' '.join(self.text.split())")],
   'a text with several spaces or lines', 'they are merged', "n = write(F.Style(text='a  b\\nc'))[0]; assert n.text == 'a  b\\nc'"),
 bug('P24-zero', O, [("            if value is not None:\n                attributes[attribute","            if value is not None and value != 0:\n                attributes[attribute")],
   'a miter limit, a width or a coordinate that is null', 'it is not written', "n = write(F.Line(x1=1, stroke_width=0))[0]; assert float(n.attrib['stroke-width']) == 0"),
 bug('P24-group', F, [("            group = SvgFormat.Group(transform=transformation).to_xml()","            group = SvgFormat.Group(transform=transformation * transformation if transformation.determinant < 0 else transformation).to_xml()")],
   'a transformation that is a mirror', 'it is applied twice', "n = write(F.Line(x1=1), transformation=A.Scale(1, -2))[0]; assert [float(x) for x in n.attrib['transform'][7:-1].split()] == [1, 0, 0, -2, 0, 0], n.attrib"),
 bug('P24-landscape', F, [("        attrib['viewBox'] = '0 0 {:.3f} {:.3f}'.format(paper.width, paper.height)","        attrib['viewBox'] = '0 0 {:.3f} {:.3f}'.format(*sorted((paper.width, paper.height)))")],
   'a paper in landscape', 'the view box is in portrait', "n = write(paper=('A3', 'landscape', 0)); b = [float(x) for x in n.attrib['viewBox'].split()]; assert b[2] > b[3]"),
]
