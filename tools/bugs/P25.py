M='Patro/Measurement/ValentinaMeasurement.py'; F='Patro/FileFormat/Valentina/Measurement.py'
H='''
import tempfile, os
from Patro.FileFormat.Valentina.Measurement import VitFile
def read(measurements, **kw):
    text = """<vit><version>0.3.3</version><unit>cm</unit><pm_system>998</pm_system><personal><customer>x</customer><birth-date>1980-02-03</birth-date>
<gender>{}</gender><email/></personal><body-measurements>{}</body-measurements></vit>""".format(kw.get('gender', 'male'), measurements)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'm.vit')
        with open(path, 'w') as f: f.write(text)
        return VitFile(path).measurements
'''
def bug(id, S, edits, needs, what, demo):
    return dict(id=id, property='P25', edits=[(S, a, b) for a, b in edits], needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P25-prefix', M, [("        return string.replace('@', cls.CUSTOM_PREFIX)","        return string.replace('@', cls.CUSTOM_PREFIX, 2)")],
   'a formula with three custom measurements', 'the third one keeps its @ and the formula cannot be read', """
m = read('<m name="@a" value="2"/><m name="@b" value="3"/><m name="c" value="@a+@b"/><m name="d" value="@a*@b+@a"/>')
assert m['c'].value == 5 and m['d'].value == 8
"""),
 bug('P25-gender', F, [("        personal.gender = Gender[self.get_xpath_element(personal_element, 'gender').text.upper()]","        gender = self.get_xpath_element(personal_element, 'gender').text.upper()\n        personal.gender = Gender.FEMALE if gender.endswith('MALE') and len(gender) > 4 or gender == 'UNKNOWN' else Gender[gender]")],
   'a person of unknown gender', 'she is read as female', """
from Patro.Measurement.PersonalData import Gender
for name in Gender.__members__: assert read('', gender=name.lower()).personal.gender is Gender[name], name
"""),
 bug('P25-default', F, [("    __attributes__ = (\n        StringAttribute('name'),","    __attributes__ = (\n        StringAttribute('name', default='@'),"),("        StringAttribute('description', default=''),","        StringAttribute('description', default=None),")],
   'a measurement without description', 'its description is the text None', """
m = read('<m name="a" value="2" description="x"/><m name="b" value="2"/>')
assert m['a'].description == 'x' and m['b'].description == ''
"""),
 bug('P25-valentina-name', M, [("        self._valentina_name = str(name)\n","        self._valentina_name = str(name).strip('@_0123456789') if str(name).startswith('@') else str(name)\n")],
   'a custom measurement whose name ends by a digit or an underscore', 'its name is truncated', """
m = read('<m name="@a" value="2"/><m name="@b1" value="3"/>')
assert m['@b1'].value == 3 and m['@b1'].is_custom()
"""),
]
