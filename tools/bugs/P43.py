B='Patro/GraphicEngine/TeX/Buffer.py'
N='Patro/GraphicEngine/TeX/Environment.py'
D='Patro/GraphicEngine/TeX/Document.py'
T='Patro/GraphicEngine/TeX/Tikz.py'
H='''
import os, tempfile
from Patro.GraphicEngine.TeX.Buffer import Buffer
from Patro.GraphicEngine.TeX.Environment import Environment, Center
from Patro.GraphicEngine.TeX.Document import Document
from Patro.GraphicEngine.TeX.Tikz import TikzFigure
from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
from Patro.GraphicStyle import StrokeStyle
'''
def bug(id, edits, needs, what, demo):
    return dict(id=id, property='P43', edits=edits, needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P43-snapshot', [(B,"        # if isinstance(data, str) or isinstance(data, Buffer):\n        self._content.append(data)","        if isinstance(data, Buffer) and data._content:\n            data = str(data)\n        self._content.append(data)")],
   'a buffer which is not empty, put in another one, then changed', 'the change does not show', """
a, b = Buffer(), Buffer()
b.append('x'); a.append(b); b.append('y')
assert str(a) == 'xy'
"""),
 bug('P43-list-copy', [(B,"                self._append(item, deepcopy)","                self._append(item)")],
   'a list with a buffer appended by copy, then changed', 'the change shows in the copy', """
a, b = Buffer(), Buffer()
a.append([b], deepcopy=True); b.append('y')
assert str(a) == ''
"""),
 bug('P43-clear', [(B,"        self._content.clear()","        self._content = []"),(B,"    def append(self, data, deepcopy=False):\n","    def append(self, data, deepcopy=False):\n\n        if isinstance(data, Buffer) and not deepcopy and type(data) is Buffer:\n            data = data._content\n")],
   'a buffer in another one which is appended to, or is cleared', 'the content is flattened', """
a, b = Buffer(), Buffer()
b.append('x'); a.append(b); b.clear()
assert str(a) == ''
"""),
 bug('P43-twice', [(D,"            filename = filename[:-4]","            filename = filename.replace('.tex', '')")],
   'a file name with the extension twice or in a directory', 'the name loses each of them', """
assert Document('a.tex.tex', 'x').pdf_filename == 'a.tex.pdf'
"""),
 bug('P43-append-file', [(D,"        with open(self.tex_filename, 'w') as fd:","        with open(self.tex_filename, 'r+' if os.path.exists(self.tex_filename) and os.path.getsize(self.tex_filename) > len(str(self)) else 'w') as fd:")],
   'a document written over a longer file', 'the end of the previous file remains', """
with tempfile.TemporaryDirectory() as t:
    p = t + '/a.tex'
    open(p, 'w').write('x' * 9999)
    Document(p, 'x').write()
    assert 'xxx' not in open(p).read()
"""),
 bug('P43-braces', [(D,"        source = self._format(r'\\documentclass[«0._class_options»]{«0._class_name»}', self) + '\\n'\n        source += str(self._preambule)","        source = self._format(r'\\documentclass[«0._class_options»]{«0._class_name»}' + '\\n' + str(self._preambule), self)")],
   'a preamble which contains the delimiters of the pattern', 'the preamble is formatted', """
d = Document('a', 'x'); d.preambule.append('«0»')
assert '«0»' in str(d)
"""),
 bug('P43-options', [(N,"            _options = '[' + options + ']'","            _options = '[' + options.strip('[]') + ']'")],
   'options which begin or end with a bracket', 'the bracket is lost', """
assert str(Environment('a', '[x]')).startswith('\\\\begin{a}[[x]]')
"""),
 bug('P43-newpage', [(D,"        self._content.append(r'\\newpage' + '\\n')","        if not str(self._content).endswith(r'\\newpage' + '\\n' + r'\\end{document}' + '\\n'):\n            self._content.append(r'\\newpage' + '\\n')")],
   'two page breaks in a row', 'the second is dropped', """
d = Document('a', 'x'); d.newpage(); d.newpage()
assert str(d).count('newpage') == 2
"""),
]
