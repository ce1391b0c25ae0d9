S='Patro/Common/Xml/Objectivity.py'
H='''
from lxml import etree
from Patro.Common.Xml.Objectivity import *
from Patro.Common.Xml.Objectivity import TextXmlObjectAdaptator as T
class A(XmlObjectAdaptator):
    __tag__ = 'a'
    __attributes__ = (IntAttribute('i', default=3), FloatAttribute('f'), BoolAttribute('b', 'bool'), FloatListAttribute('l'), StringAttribute('s'))
read = lambda s, cls=A: cls(etree.fromstring(s))
again = lambda o: read(o.to_xml_string(), type(o))
'''
def bug(id, edits, needs, what, demo):
    return dict(id=id, property=id.split('-')[0], edits=[(S, a, b) for a, b in edits], needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P21-falsy', [("            if value is not None:\n                attributes[attribute.xml_attribute]","            if value is not None and (value or value is False):\n                attributes[attribute.xml_attribute]")],
   'a null number or an empty string which is not the default', 'it is not written, hence reads as the default',
   "assert again(A(i=0)).i == 0"),
 bug('P21-list-precision', [("        return ' '.join([str(x) for x in value])","        return ' '.join(['{:g}'.format(x) for x in value])")],
   'a list of floats of more than six digits', 'digits are lost',
   "assert again(A(l=[1.23456789])).l == [1.23456789]"),
 bug('P21-default-shadow', [("            if xml_attribute in xml_attributes:\n                value = attribute.from_xml(xml_attributes[xml_attribute])\n","            if xml_attributes.get(xml_attribute):\n                value = attribute.from_xml(xml_attributes[xml_attribute])\n")],
   'an attribute with an empty value and a default', 'the default replaces the empty value',
   "class B(A):\n    __attributes__ = (StringAttribute('s', default='x'),)\nassert read('<b s=\"\"/>', B).s == ''"),
 bug('P21-xml-name', [("        if xml_attribute is None:\n            self._xml_attribute = py_attribute","        if xml_attribute is None or xml_attribute.lower() == py_attribute:\n            self._xml_attribute = py_attribute")],
   'an XML name which differs from the Python name by its case', 'the attribute is not read',
   "class B(A):\n    __attributes__ = (IntAttribute('view', 'View'),)\nassert read('<b View=\"2\"/>', B).view == 2"),
 bug('P21-text', [("        element.text = self.text\n","        element.text = self.text.strip()\n")], 'a text with leading or trailing spaces', 'the spaces are lost',
   "class B(T):\n    __tag__ = 'b'\nassert read('<b> x</b>', B).text == ' x' == again(read('<b> x</b>', B)).text"),
]
