"""P24 — SVG files written by the library read back as the same elements"""

import math
import tempfile
from pathlib import Path
from xml.etree import ElementTree

from hypothesis import strategies as st

from Patro.FileFormat.Svg import SvgFormat
from Patro.FileFormat.Svg.SvgFile import SvgFileInternal, SvgFileWriter
from Patro.GeometryEngine.Path import Path2D
from Patro.GeometryEngine.Transformation import AffineTransformation2D
from Patro.GraphicEngine.Painter.Paper import PaperSize

from checks import P18
from pbt import num, paths, svgdata
from pbt.harness import Check, ensure, fail
from pbt.num import xy

check = Check(
    'P24',
    rule='Hypothesis generates lists of elements of every graphic kind, with random subsets of their attributes, written to a file on a random paper; the file is read with '
         'the XML parser of the standard library, with an independent reader of path data, transform lists and numbers, and with the library.  Chains with rounded '
         'corners are compared with the elementary geometry of P18.  A case is non-trivial when at least two elements of different kinds have attributes, or a corner is rounded.',
    assumptions=['texts without control characters', 'paths have at least one part'],
)

SVG = '{http://www.w3.org/2000/svg}'
SCRATCH = tempfile.TemporaryDirectory(prefix='p24-')

# -- elements: tag, list of (python name, value) -------------------------------------------------------------------

_number = st.one_of(st.integers(-100, 100).map(float), st.integers(-10**6, 10**6).map(lambda i: i / 1024), st.sampled_from([1e-7, 123456789.125, .1, 1 / 3, -2e20]),
                    st.integers(-30, 30))
_positive = st.one_of(st.integers(0, 100).map(float), st.integers(0, 10**6).map(lambda i: i / 1000))
_word = st.one_of(st.sampled_from(['red', 'none', '#ffbb00', 'inherit', "a'b", 'a"b', '<&>', 'é — 你好', 'a  b', '100%', '10mm']),
                  st.text('abcdefghijklmnopqrstuvwxyz0123456789 <>&"\'éà;:#()-_.', min_size=1, max_size=8))
_length = st.one_of(_number, st.tuples(_positive, st.sampled_from(['mm', 'cm', 'px', 'pt', 'in', 'em', 'pc', 'ex', '%'])).map(lambda t: '{}{}'.format(*t)))
_dashes = st.one_of(st.just('none'), st.lists(st.sampled_from([1.2345678, 1 / 3, 123456.789, 1e-7, 0.1, 98765432.1]), min_size=1, max_size=3), st.lists(_positive, min_size=1, max_size=6), st.lists(_positive, min_size=1, max_size=4).map(tuple))
_points = st.lists(st.tuples(_number, _number), min_size=1, max_size=5).map(lambda l: ' '.join('{},{}'.format(*p) for p in l))
_transform = st.integers(1, 3).flatmap(lambda n: st.lists(svgdata.transform, min_size=n, max_size=n)).map(lambda l: [(name, list(v)) for name, v in l])

CORE = {'id': ('id', _word), 'style': ('style', _word), 'transform': ('transform', _transform)}
PAINT = {'fill': ('fill', _word), 'stroke': ('stroke', _word), 'stroke_line_cap': ('stroke-linecap', st.sampled_from(['butt', 'round', 'square'])),
         'stroke_line_join': ('stroke-linejoin', st.sampled_from(['miter', 'round', 'bevel'])), 'stroke_miter_limit': ('stroke-miterlimit', _number),
         'stroke_width': ('stroke-width', _length), 'stroke_dasharray': ('stroke-dasharray', _dashes)}
FONT = {'font_size': ('font-size', _word), 'font_family': ('font-family', _word)}


def numbers(*names):
    return {name: (name, _number) for name in names}


_path = st.tuples(paths.paths(1, 6), st.booleans())
SHAPE = dict(CORE, **PAINT)
ELEMENTS = {
    'circle': ('Circle', dict(SHAPE, **numbers('cx', 'cy', 'r'))),
    'ellipse': ('Ellipse', dict(SHAPE, **numbers('cx', 'cy', 'rx', 'ry'))),
    'line': ('Line', dict(SHAPE, **numbers('x1', 'y1', 'x2', 'y2'))),
    'rect': ('Rect', dict(SHAPE, width=('width', _word), height=('height', _word), **numbers('x', 'y', 'rx', 'ry'))),
    'polyline': ('Polyline', dict(SHAPE, points=('points', _points))),
    'polygon': ('Polygon', dict(SHAPE, points=('points', _points))),
    'path': ('Path', dict(SHAPE, path_length=('pathLength', _number))),
    'g': ('Group', dict(SHAPE, clip_path=('clip-path', _word), data_name=('data-name', _word), **FONT)),
    'text': ('Text', dict(CORE, fill=PAINT['fill'], stroke=PAINT['stroke'], _class=('class', _word), **FONT, **numbers('x', 'y', 'dx', 'dy'))),
    'style': ('Style', {}),
}
_content = st.one_of(_word, st.sampled_from(['', 'svg { background: white; }\n.small { font: italic 13px sans-serif; }', ' leading', 'trailing ', 'two\nlines']))


@st.composite
def element(draw):
    tag = draw(st.sampled_from(sorted(ELEMENTS)))
    table = ELEMENTS[tag][1]
    names = draw(st.integers(0, 6).flatmap(lambda n: st.lists(st.sampled_from(sorted(table)), min_size=min(n, len(table)), max_size=min(n, len(table)), unique=True))) if table else []
    values = [(name, draw(table[name][1])) for name in names]
    if tag == 'path':
        values.append(('path_data', draw(_path)))
    return dict(tag=tag, values=values, text=draw(_content) if tag in ('text', 'style') else None)


def transformation_of(transforms):
    return AffineTransformation2D([x for i in ((0, 2, 4), (1, 3, 5)) for x in (svgdata.matrix_of_list(transforms)[j] for j in i)] + [0, 0, 1])


def make(element):
    kwargs = {}
    for name, value in element['values']:
        if name == 'transform':
            value = transformation_of(value)
        elif name == 'path_data':
            drawing, closed = value
            value = paths.build(drawing)
            if closed:
                value.close()
        kwargs[name] = value
    if element['text'] is not None:
        kwargs['text'] = element['text']
    return getattr(SvgFormat, ELEMENTS[element['tag']][0])(**kwargs)


def split_length(text):
    for unit in ('mm', 'cm', 'px', 'pt', 'in', 'em', 'pc', 'ex', '%'):
        if text.endswith(unit):
            return float(text[:-len(unit)]), unit
    return float(text), None


def check_path_data(text, drawing, closed):
    expected = paths.pieces(drawing, closed=closed)
    letters = svgdata.parse(text)
    pieces = svgdata.to_pieces(letters)
    ensure(len(pieces) == len(expected) and (letters[-1][0] in 'zZ') == closed, 'path data {} of {}', text, drawing)
    scale = 1.
    for piece in expected:
        scale = max(scale, num.magnitude_of(*piece[1]))
    for piece, reference in zip(pieces, expected):
        ensure(num.pclose(piece[1][0], reference[1][0], scale) and num.pclose(piece[1][-1], reference[1][-1], scale), 'piece {} of {}, expected {}', piece, text, reference)
        if reference[0] == 'arc' and num.dist(reference[1][0], reference[1][-1]) < 1e-3:
            continue
        for t in (.25, .6):
            p, q = paths.sample(piece, t), paths.sample(reference, t)
            ensure(num.pclose(p, q, scale, rtol=1e-5, atol=1e-5), 'piece {} of {} passes by {} instead of {}', piece, text, p, q)


def check_transform(text, matrix):
    ensure(text.startswith('matrix(') and text.endswith(')'), 'transform {}', text)
    values = [float(x) for x in text[7:-1].replace(',', ' ').split()]
    ensure(len(values) == 6 and all(num.close(x, y) for x, y in zip(values, matrix)), 'transform {}, expected {}', text, matrix)


def check_attribute(name, text, value, what):
    if name == 'transform':
        check_transform(text, svgdata.matrix_of_list(value))
    elif name == 'path_data':
        check_path_data(text, *value)
    elif name == 'stroke_dasharray' and value != 'none':
        ensure([float(x) for x in text.replace(',', ' ').split()] == [float(x) for x in value], 'dashes {} of {}, expected {}', text, what, value)
    elif name == 'stroke_width':
        (x, unit), (y, expected) = split_length(text), split_length(str(value))
        ensure(num.close(x, y, abs(y), rtol=1e-12) and unit == expected, 'length {} of {}, expected {}', text, what, value)
    elif isinstance(value, str):
        ensure(text == value, '{} {!r} of {}, expected {!r}', name, text, what, value)
    else:
        ensure(float(text) == value, '{} {} of {}, expected {}', name, text, what, value)


def check_element(node, element, what):
    tag = element['tag']
    table = dict(ELEMENTS[tag][1], path_data=('d', None))
    ensure(node.tag in (tag, SVG + tag), 'tag {} of {}', node.tag, what)
    expected = {table[name][0]: (name, value) for name, value in element['values']}
    ensure(set(node.attrib) == set(expected), 'attributes {} of {}, expected {}', sorted(node.attrib), what, sorted(expected))
    for attribute, (name, value) in expected.items():
        check_attribute(name, node.attrib[attribute], value, what)
    ensure(len(node) == 0, 'children of {}', what)
    if element['text'] is not None:
        ensure((node.text or '') == element['text'], 'text {!r} of {}, expected {!r}', node.text, what, element['text'])


class Reader(SvgFileInternal):

    def __init__(self, path):
        self.groups, self.items = [], []
        super().__init__(path)

    def on_group(self, group):
        self.groups.append(group)

    def on_graphic_item(self, item):
        state = next(x for x in vars(self).values() if hasattr(x, "state")).state.clone().merge(item)
        self.items.append((item, state))


@st.composite
def files(draw):
    size = draw(st.integers(0, 8))
    elements = [draw(element()) for _ in range(size)]
    return dict(elements=elements, transformation=draw(st.one_of(st.none(), _transform)),
                paper=draw(st.tuples(st.sampled_from('ABCabc'), st.integers(0, 10), st.sampled_from(['portrait', 'landscape']), st.integers(0, 20))),
                generator=draw(st.booleans()))


@check.facet(files(), quick=1500)
def writing(case):
    letter, level, orientation, margin = case['paper']
    paper = PaperSize('{}{}'.format(letter, level), orientation, margin)
    elements = case['elements']
    transformation = None if case['transformation'] is None else transformation_of(case['transformation'])
    tree = [make(e) for e in elements]
    filename = Path(SCRATCH.name) / 'out.svg'
    SvgFileWriter(filename if case['generator'] else str(filename), paper, iter(tree) if case['generator'] else tree, transformation)

    root = ElementTree.parse(str(filename)).getroot()
    ensure(root.tag == SVG + 'svg' and root.attrib.get('version') == '1.1', 'root {}', root.tag)
    # page in mm, and user space in mm: A0 is 841 x 1189, B0 1000 x 1414, C0 917 x 1297
    height = {'A': 1189, 'B': 1414, 'C': 1297}[letter.upper()] / math.sqrt(2)**level
    size = (height / math.sqrt(2), height)
    if orientation == 'landscape':
        size = size[::-1]
    for name, x in zip(('width', 'height'), size):
        value, unit = split_length(root.attrib[name])
        ensure(unit == 'mm' and abs(value - x) <= 6e-4, '{} {} of the page, expected {} mm', name, root.attrib[name], x)
    box = [float(x) for x in root.attrib['viewBox'].split()]
    ensure(len(box) == 4 and box[:2] == [0, 0] and all(abs(a - b) <= 6e-4 for a, b in zip(box[2:], size)), 'view box {} of a page {}', box, size)

    nodes = list(root)
    if transformation is not None:
        ensure(len(nodes) == 1 and nodes[0].tag in ('g', SVG + 'g'), 'a transformation is a group')
        ensure(set(nodes[0].attrib) == {'transform'}, 'attributes {} of the group', nodes[0].attrib)
        check_transform(nodes[0].attrib['transform'], svgdata.matrix_of_list(case['transformation']))
        nodes = list(nodes[0])
    ensure([n.tag.replace(SVG, '') for n in nodes] == [e['tag'] for e in elements], 'elements {}', [n.tag for n in nodes])
    for i, (node, e) in enumerate(zip(nodes, elements)):
        check_element(node, e, 'element {} {}'.format(i, e['tag']))

    # with the library
    usable = [e for e in elements if e['tag'] not in ('text', 'style')]
    if not any(style_is_invalid(e) for e in usable):
        reader = Reader(filename)
        box = reader.view_box
        ensure(abs(box.x.sup - size[0]) <= 6e-4 and abs(box.y.sup - size[1]) <= 6e-4 and box.x.inf == 0 == box.y.inf, 'view box {}', box)
        groups = [e for e in usable if e['tag'] == 'g']
        read = [g for g in reader.groups if transformation is None or g is not reader.groups[0]]
        ensure(len(read) == len(groups), 'groups {}', reader.groups)
        items = [e for e in usable if e['tag'] != 'g']
        ensure(len(reader.items) == len(items), 'items {}', reader.items)
        for (item, state), e in zip(reader.items, items):
            check_read(item, e)
            m = svgdata.matrix_of_list(case['transformation'] or []) if transformation is not None else svgdata.IDENTITY
            m = svgdata.compose(m, svgdata.matrix_of_list(dict(e['values']).get('transform', [])))
            read_matrix = svgdata.patro_matrix(state.transform)
            scale = max(1., *(abs(x) for x in m))
            ensure(all(num.close(x, y, scale) for x, y in zip(read_matrix, m)), 'matrix {} of {}, expected {}', read_matrix, e, m)
        for group, e in zip(read, groups):
            check_read(group, e)
    # writing again gives the same file
    first = filename.read_bytes()
    SvgFileWriter(filename, paper, [make(e) for e in elements], transformation)
    ensure(filename.read_bytes() == first, 'the same elements give another file')
    return '{} kinds'.format(min(4, len({e['tag'] for e in elements if e['values']}))) if len({e['tag'] for e in elements if e['values']}) > 1 else None


def style_is_invalid(e):
    values = dict(e['values'])
    style = values.get('style')
    return style is not None


def check_read(item, e):
    ensure(item.__tag__ == e['tag'], 'item {} of {}', item, e)
    values = dict(e['values'])
    for name in ELEMENTS[e['tag']][1]:
        value = getattr(item, name)
        if name not in values:
            ensure(value is None, '{} {} of {}', name, value, e)
            continue
        expected = values[name]
        if name == 'transform':
            m = svgdata.matrix_of_list(expected)
            ensure(all(num.close(x, y) for x, y in zip(svgdata.patro_matrix(value), m)), 'transform {} of {}', value, e)
        elif name == 'stroke_dasharray' and expected != 'none':
            ensure(list(value) == [float(x) for x in expected], 'dashes {} of {}', value, e)
        elif name == 'stroke_width':
            x, unit = split_length(str(expected))
            ensure(num.close(float(value), x / 100 if unit == '%' else x, abs(x), rtol=1e-12), 'length {} of {}', value, e)
            ensure(getattr(value, 'unit', None) == (None if unit == '%' else unit), 'unit of {} in {}', value, e)
            ensure(split_length(str(value))[1] == unit and num.close(split_length(str(value))[0], x, abs(x), rtol=1e-12), 'text {} of {}', value, e)
        elif isinstance(expected, str):
            ensure(value == expected, '{} {!r} of {}', name, value, e)
        else:
            ensure(float(value) == expected, '{} {!r} of {}', name, value, e)
    if e['tag'] == 'path':
        from checks.P22 import check_path
        drawing, closed = values['path_data']
        check_path(item.path_data, paths.pieces(drawing, closed=closed), drawing[0], closed)


# -- rounded corners -----------------------------------------------------------------------------------------------

def outline(vertices, radii, closed):
    """Pieces of the outline of a chain with rounded corners, without the empty ones"""
    n = len(vertices)
    starts, stops = list(vertices), list(vertices)
    arcs = [None] * n
    for i in range(n):
        if radii[i]:
            start, stop, centre, turn = P18.corner(vertices[i - 1], vertices[i], vertices[(i + 1) % n], radii[i])
            starts[i], stops[i] = start, stop
            arcs[i] = ('round', [start, stop], centre, turn)
    pieces = []
    for i in range(n if closed else n - 1):
        j = (i + 1) % n
        pieces.append(('segment', [stops[i], starts[j]]))
        if arcs[j]:
            pieces.append(arcs[j])
    return pieces


def sample_outline(piece, t):
    if piece[0] != 'round':
        return paths.sample(piece, t)
    (start, _), centre, turn = piece[1:]
    a = math.radians(turn * t)
    x, y = num.sub(start, centre)
    return num.add(centre, (x * math.cos(a) - y * math.sin(a), x * math.sin(a) + y * math.cos(a)))


def check_outline(text, vertices, radii, closed):
    letters = svgdata.parse(text)
    ensure((letters[-1][0] in 'zZ') == closed, 'path data {} of a path, closed is {}', text, closed)
    scale = max(1., num.magnitude_of(*vertices)) + max([r or 0 for r in radii])
    epsilon = 1e-6 * scale

    def significant(pieces):
        return [p for p in pieces if num.dist(p[1][0], p[1][-1]) > 10 * epsilon]

    pieces, expected = significant(svgdata.to_pieces(letters)), significant(outline(vertices, radii, closed))
    ensure(len(pieces) == len(expected), '{} pieces in {}, expected {}', len(pieces), text, expected)
    for piece, reference in zip(pieces, expected):
        ensure((piece[0] == 'arc') == (reference[0] == 'round'), 'piece {} of {}, expected {}', piece, text, reference)
        for t in (0, .25, .5, .8, 1):
            p, q = paths.sample(piece, t), sample_outline(reference, t)
            ensure(num.dist(p, q) <= 10 * epsilon, 'piece {} of {} passes by {} instead of {}', piece, text, p, q)
    return any(p[0] == 'arc' for p in pieces)


@check.facet(P18.chains(), quick=1000)
def corners(case):
    """Rounded corners are written as arcs"""
    vertices, kinds, fractions, closed = case
    if closed:
        # turns at the closure
        for i in (-1, 0):
            a, b, c = vertices[i - 1], vertices[i], vertices[(i + 1) % len(vertices)]
            if num.dist(a, b) < 1e-2 or num.dist(b, c) < 1e-2 or abs(P18.turn_of(a, b, c)) > 175:
                return None
    radii = P18.radii_of(vertices, fractions, closed)
    path = P18.build(vertices, kinds, radii, closed)
    text = SvgFormat.Path(path_data=path).to_xml().attrib['d']
    return 'rounded' if check_outline(text, vertices, radii, closed) else None


_corner_radius = st.one_of(st.none(), st.sampled_from([0., 1., 3.5, 20., 500.]), st.integers(1, 400).map(lambda i: i / 8))


@check.facet(st.tuples(_number.filter(lambda x: abs(x) < 1e4), _number.filter(lambda x: abs(x) < 1e4), st.integers(1, 2000).map(lambda i: i / 16),
                       st.integers(1, 2000).map(lambda i: i / 16), _corner_radius, st.one_of(st.just('same'), _corner_radius),
                       st.sampled_from(['xy', 'x', 'y', '']), st.booleans()), quick=900)
def rectangles(case):
    """Outline of a rectangle: its position defaults to the origin, and a radius to the other one; a radius is at most half of its side"""
    x, y, width, height, rx, ry, given, reads = case
    if ry == 'same':
        ry = rx
    kwargs = dict(width=width, height=height)
    kwargs.update({name: value for name, value in (('x', x), ('y', y)) if name in given})
    kwargs.update({name: value for name, value in (('rx', rx), ('ry', ry)) if value is not None})
    x, y = kwargs.get('x', 0), kwargs.get('y', 0)
    item = SvgFormat.Rect(**kwargs)
    if reads:
        item = SvgFormat.Rect(item.to_xml())
    path = item.geometry
    ensure(path.is_closed, 'a rectangle is closed')
    rx, ry = ry if rx is None else rx, rx if ry is None else ry
    if rx and ry:
        rx, ry = min(rx, width / 2), min(ry, height / 2)
    else:
        rx = ry = None
    vertices = [(x, y), (x + width, y), (x + width, y + height), (x, y + height)]
    text = SvgFormat.Path(path_data=path).to_xml().attrib['d']
    if rx == ry:
        check_outline(text, vertices, [rx] * 4, True)
        return 'rounded' if rx else 'sharp'

    # the corners are circular in the frame whose units are the radii
    def frame(p, k):
        return (p[0] * rx**k, p[1] * ry**k)
    expected = [(piece, [frame(sample_outline(piece, t), 1) for t in (0, .25, .5, .8, 1)]) for piece in outline([frame(p, -1) for p in vertices], [1] * 4, True)]
    scale = max(1., num.magnitude_of(*vertices))
    epsilon = 1e-6 * scale
    expected = [(piece, points) for piece, points in expected if num.dist(points[0], points[-1]) > 10 * epsilon]
    letters = svgdata.parse(text)
    ensure(letters[-1][0] in 'zZ', 'path data {} of a rectangle', text)
    pieces = [piece for piece in svgdata.to_pieces(letters) if num.dist(piece[1][0], piece[1][-1]) > 10 * epsilon]
    ensure(len(pieces) == len(expected), '{} pieces in {}, expected {}', len(pieces), text, expected)
    for piece, (reference, points) in zip(pieces, expected):
        ensure((piece[0] == 'arc') == (reference[0] == 'round'), 'piece {} of {}, expected {}', piece, text, reference)
        for t, q in zip((0, .25, .5, .8, 1), points):
            p = paths.sample(piece, t)
            ensure(num.dist(p, q) <= 10 * epsilon, 'piece {} of {} passes by {} instead of {}', piece, text, p, q)
    return 'elliptical'
