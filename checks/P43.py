"""P43 — LaTeX buffers, environments and documents"""

import copy
import os
import re

from hypothesis import strategies as st

from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
from Patro.GraphicEngine.TeX.Buffer import Buffer
from Patro.GraphicEngine.TeX.Document import Document
from Patro.GraphicEngine.TeX.Environment import Center, Environment
from Patro.GraphicEngine.TeX.Tikz import TikzFigure
from Patro.GraphicStyle import Colors, StrokeStyle

from pbt.harness import Check, ensure
from pbt.scratch import scratch

check = Check(
    'P43',
    rule='Hypothesis generates histories over a pool of buffers and environments: append of texts, numbers, lists, of other buffers of the pool by reference or by copy, and clear; documents with '
         'a preamble and pages, under many names; styles.  The oracle is a tree of lists which is rendered on demand.  A case is non-trivial when a buffer is in another one and changed '
         'afterwards, a name has or looks like the extension, a style is not solid.',
    assumptions=['a buffer is not put in itself', 'file names are texts'],
)

text = st.one_of(st.sampled_from(['a', '\\draw (0, 0);\n', '{x}', '«0»', '{0}', '%\n', 'é', '']), st.text('ab{}«»\\\n ', max_size=6))
item = st.one_of(text, st.integers(-5, 5))
KINDS = ['buffer', 'figure', 'tabular', 'center', 'tikz']
options = st.sampled_from(['', 't', 'scale=2', '[x]', 'a={b}'])

step = st.one_of(
    st.tuples(st.just('append'), st.integers(0, 5), item, st.booleans()),
    st.tuples(st.just('list'), st.integers(0, 5), st.lists(st.one_of(item, st.integers(0, 5).map(lambda i: ('pool', i))), max_size=4), st.booleans()),
    st.tuples(st.just('nest'), st.integers(0, 5), st.integers(0, 5), st.booleans()),
    st.tuples(st.just('nest'), st.integers(0, 5), st.integers(0, 5), st.booleans()),
    st.tuples(st.just('clear'), st.integers(0, 5)),
)


class Node:
    """Reference buffer"""

    def __init__(self, kind, opts):
        self.kind, self.options, self.items = kind, opts, []

    def __str__(self):
        body = ''.join(map(str, self.items))
        if self.kind == 'buffer':
            return body
        name = {'tikz': 'tikzpicture'}.get(self.kind, self.kind)
        opts = '[{}]'.format(self.options) if self.options and self.kind != 'center' else ''
        return '\\begin{' + name + '}' + opts + '\n' + body + '\\end{' + name + '}\n'

    def reaches(self, other):
        return self is other or any(isinstance(x, Node) and x.reaches(other) for x in self.items)


def create(kind, opts):
    if kind == 'buffer':
        return Buffer()
    if kind == 'center':
        return Center()
    if kind == 'tikz':
        return TikzFigure(opts)
    return Environment(kind, opts)


def run(pool, steps):
    """Play the steps on (buffer, node) pairs, returns whether an inner buffer was changed"""
    nested, label = set(), None
    for operation, index, *arguments in steps:
        index %= len(pool)
        buffer, node = pool[index]
        if index in nested:
            label = 'shared'
        if operation == 'clear':
            buffer.clear()
            node.items.clear()
            continue
        value, deep = arguments
        duplicate = copy.deepcopy if deep else lambda x: x
        if operation == 'append':
            given, expected = value, [value]
        elif operation == 'list':
            given, expected = [], []
            for x in value:
                if isinstance(x, tuple):
                    other = x[1] % len(pool)
                    if pool[other][1].reaches(node):
                        continue
                    given.append(pool[other][0])
                    expected.append(duplicate(pool[other][1]))
                    if not deep:
                        nested.add(other)
                else:
                    given.append(x)
                    expected.append(x)
        else:
            other = value % len(pool)
            if pool[other][1].reaches(node):
                continue
            given, expected = pool[other][0], [duplicate(pool[other][1])]
            if not deep:
                nested.add(other)
        returned = buffer.append(given, deepcopy=True) if deep else buffer.append(given)
        ensure(returned is buffer, 'append returns the buffer')
        if isinstance(given, list):
            # the list itself is not kept
            given.append('later')
        node.items += expected
        for b, n in pool:
            ensure(str(b) == str(n), 'source {!r} instead of {!r}', str(b), str(n))
    return label


@check.facet(st.tuples(st.lists(st.tuples(st.sampled_from(KINDS), options), min_size=2, max_size=5), st.lists(step, min_size=1, max_size=12)), quick=800)
def buffers(case):
    kinds, steps = case
    pool = [(create(*x), Node(*x)) for x in kinds]
    for b, n in pool:
        ensure(str(b) == str(n), 'empty source {!r} instead of {!r}', str(b), str(n))
    label = run(pool, steps)
    for b, n in pool:
        ensure(str(b) == str(n), 'source {!r} instead of {!r}', str(b), str(n))
    return label


name = st.one_of(st.sampled_from(['foo', 'a', 'tex', '.tex', 'abc.tex', 'a.tex.tex', 'x.latex', 'foo.TEX', 'a b.tex', 'atex', 'a.texx', 'abcd']), st.text('atex.', min_size=1, max_size=7))


@check.facet(st.tuples(name, st.booleans(), st.sampled_from(['article', 'standalone', 'x{y}', '']), options, st.lists(st.one_of(item, st.none()), max_size=6), st.lists(item, max_size=3)), quick=500)
def documents(case):
    filename, directory, class_name, opts, content, preamble = case
    if filename in ('.', '..'):
        return None
    folder = scratch() if directory else ''
    given = os.path.join(folder, filename) if directory else filename
    base = given[:-len('.tex')] if given.endswith('.tex') else given
    document = Document(given, class_name, opts) if opts else Document(given, class_name)
    ensure(document.tex_filename == base + '.tex', 'file {!r} of {!r}', document.tex_filename, given)
    ensure(document.pdf_filename == base + '.pdf', 'file {!r} of {!r}', document.pdf_filename, given)
    ensure(os.path.normpath(document.output_directory or '.') == os.path.normpath(folder or '.'), 'directory {!r} of {!r}', document.output_directory, given)
    other = Document('other', 'article')
    body = ''
    for x in content:
        if x is None:
            document.newpage()
            body += '\\newpage\n'
        else:
            document.content.append(x)
            body += str(x)
    for x in preamble:
        document.preambule.append(x)
    expected = '\\documentclass[' + opts + ']{' + class_name + '}\n' + ''.join(map(str, preamble)) + '\\begin{document}\n' + body + '\\end{document}\n'
    ensure(str(document) == expected, 'source {!r} instead of {!r}', str(document), expected)
    ensure(str(other) == '\\documentclass[]{article}\n\\begin{document}\n\\end{document}\n', 'source of another document {!r}', str(other))
    if directory:
        path = base + '.tex'
        try:
            # the file is replaced
            for previous in (None, expected + 'previous', ''):
                if previous is not None:
                    with open(path, 'w') as stream:
                        stream.write(previous)
                document.write()
                with open(path, newline='') as stream:
                    found = stream.read()
                ensure(found == expected, 'written {!r} instead of {!r}', found, expected)
        finally:
            if os.path.exists(path):
                os.remove(path)
    return 'extension' if 'tex' in filename or len(filename) == 3 else None


color = st.one_of(st.none(), st.sampled_from(['black', 'red', 'dirty_blue', 'gold']), st.integers(0, 0xffffff).map('#{:06x}'.format))
LENGTHS = {'SolidLine': [], 'DashLine': [5, 5], 'DotLine': [2, 2], 'DashDotLine': [5, 4, 2, 4], 'DashDotDotLine': [5, 4, 2, 4, 2, 4]}


@check.facet(st.tuples(st.sampled_from(sorted(LENGTHS) + ['NoPen']), st.one_of(st.integers(1, 9), st.integers(1, 9999).map(lambda i: i / 1000)), color), quick=300)
def styles(case):
    style, width, stroke = case
    source = TikzFigure.format_path_style(GraphicPathStyle(stroke_style=StrokeStyle[style], line_width=width, stroke_color=stroke))
    # options out of braces
    parts = [x.strip() for x in re.split(r',(?![^{]*\})', source)]
    found = dict(x.split('=', 1) if '=' in x else (x, None) for x in parts)
    ensure(re.fullmatch(r'[\d.]+(pt)?', found.pop('line width')) and float(re.sub('pt', '', [x for x in parts if x.startswith('line width')][0].split('=')[1])) == width, 'width in {!r}', source)
    if stroke is None or style == 'NoPen':
        ensure(found.get('draw') == 'none', 'a line without pen is drawn: {!r}', source)
    else:
        ensure('draw' not in found, 'not drawn: {!r}', source)
        dashes = [float(x) for x in re.findall(r'o(?:n|ff) ([\d.]+)mm', found.get('dash pattern', ''))]
        ensure(dashes == LENGTHS[style], 'dashes {} of {}', dashes, style)
    if stroke is not None:
        expected = Colors.ensure_color(stroke)
        ensure(found.get('color') == '{{rgb,255:red,{};green,{};blue,{}}}'.format(expected.red, expected.green, expected.blue), 'colour {!r} of {}', found.get('color'), expected)
    return style if style != 'SolidLine' else None
