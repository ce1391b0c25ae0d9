"""P23 — Reading an SVG document applies to each item exactly its ancestors’ state"""

from pathlib import Path
from xml.sax.saxutils import quoteattr

from hypothesis import strategies as st

from IntervalArithmetic import Interval2D
from Patro.FileFormat.Svg.SvgFile import SvgFileInternal
from Patro.FileFormat.Svg.SvgFormat import UnitValue, PercentValue

from pbt import num, svgdata
from pbt.harness import Check, ensure, fail
from pbt.scratch import scratch

check = Check(
    'P23',
    rule='Hypothesis generates trees of groups and graphic elements, up to 5 levels, with transformations, presentation attributes and styles; the document is '
         'given as a text, as encoded bytes or as a file.  The oracle walks the tree with a dictionary for the properties and a matrix for the transformation.  A case is non-trivial when an item is '
         'in a nested group and a property is set.',
    assumptions=['presentation attributes that the elements declare: fill, stroke and its variants, fonts and clipping on groups; any property in a style',
                 'nested a, svg, defs and switch elements, texts and uses are not delivered'],
)

# Values of each property: (text, expected value by an attribute, by a style)
_colors = st.sampled_from(['red', '#ffbb00', 'rgb(1,2,3)', 'url(http://a/b#c)', 'blue', 'currentColor'])
_numbers = st.one_of(st.integers(0, 30).map(str), st.integers(1, 999).map(lambda i: str(i / 8)), st.integers(1, 99).map(lambda i: '{}e-1'.format(i)))
_units = st.sampled_from(['mm', 'cm', 'px', 'pt', 'in', 'em', '%'])
_lengths = st.one_of(_numbers, st.tuples(_numbers, _units).map(lambda t: t[0] + t[1]))
_dashes = st.lists(st.integers(0, 90).map(lambda i: str(i / 4)), min_size=1, max_size=6).map(lambda l: ','.join(l))

PROPERTIES = {
    'fill': _colors, 'stroke': _colors, 'stroke-width': _lengths,
    'stroke-linecap': st.sampled_from(['butt', 'round', 'square']), 'stroke-linejoin': st.sampled_from(['miter', 'round', 'bevel']),
    'stroke-miterlimit': _numbers, 'stroke-dasharray': _dashes,
}
GROUP_PROPERTIES = dict(PROPERTIES)
GROUP_PROPERTIES.update({'font-size': st.sampled_from(['12', '10.5', '12px']), 'font-family': st.sampled_from(['Arial', "'DejaVu Sans'"]),
                         'clip-path': st.just('url(#clip)')})
STYLE_PROPERTIES = dict(PROPERTIES)
STYLE_PROPERTIES.update({'opacity': _numbers, 'fill-opacity': _numbers, 'stroke-opacity': _numbers, 'fill-rule': st.sampled_from(['nonzero', 'evenodd']),
                         'stroke-dashoffset': _numbers, 'font-size': st.sampled_from(['12', '10.5', '12px']), 'visibility': st.sampled_from(['hidden', 'visible']),
                         'display': st.just('inline'), 'font-size-adjust': _numbers, 'color-interpolation': st.just('linearRGB'), 'glyph-orientation-vertical': _numbers,
                         'marker-end': st.sampled_from(['url(#arrow)', 'none']), 'font-weight': st.sampled_from(['bold', '700']), 'text-anchor': st.just('middle')})

DEFAULTS = {'fill-opacity': 1, 'fill-rule': 'nonzero', 'opacity': 1, 'stroke-linecap': 'butt', 'stroke-linejoin': 'miter', 'stroke-miterlimit': 4,
            'stroke-opacity': 1, 'stroke-width': 1}


@st.composite
def properties(draw, table):
    names = draw(st.integers(0, 4).flatmap(lambda n: st.lists(st.sampled_from(sorted(table)), min_size=n, max_size=n, unique=True)))
    # 'none' or 'inherit' as well
    return [(name, draw(st.one_of(table[name], table[name], st.sampled_from(['none', 'inherit'] if name in ('fill', 'stroke', 'stroke-dasharray') else ['inherit']))))
            for name in names]


@st.composite
def common(draw, group):
    attributes = draw(properties(GROUP_PROPERTIES if group else PROPERTIES))
    style = draw(properties(STYLE_PROPERTIES)) if draw(st.integers(0, 2)) == 0 else None
    transforms = draw(st.integers(0, 2).flatmap(lambda n: st.lists(svgdata.transform, min_size=n, max_size=n)))
    return dict(attributes=attributes, style=style, transforms=transforms, layout=draw(st.integers(0, 7)))


_coordinate = st.one_of(st.integers(-50, 50).map(float), st.integers(-5000, 5000).map(lambda i: i / 16))
GEOMETRY = {
    'circle': ('cx', 'cy', 'r'), 'ellipse': ('cx', 'cy', 'rx', 'ry'), 'line': ('x1', 'y1', 'x2', 'y2'), 'rect': ('x', 'y', 'width', 'height', 'rx', 'ry'),
    'polyline': ('points',), 'polygon': ('points',), 'path': ('d',),
}
IGNORED = ('text', 'defs', 'use', 'title', 'a', 'foreignObject', 'symbol', 'comment', 'pi')


@st.composite
def item(draw):
    tag = draw(st.sampled_from(sorted(GEOMETRY)))
    geometry = []
    for name in GEOMETRY[tag]:
        if name == 'points':
            value = ' '.join('{},{}'.format(draw(_coordinate), draw(_coordinate)) for _ in range(draw(st.integers(1, 4))))
        elif name == 'd':
            value = 'M{} {} L{} {}'.format(*(draw(_coordinate) for _ in range(4)))
        elif draw(st.integers(0, 4)) == 0:
            # absent
            continue
        else:
            value = repr(draw(_coordinate))
        geometry.append((name, value))
    return dict(tag=tag, geometry=geometry, **draw(common(False)))


@st.composite
def node(draw, depth):
    kind = draw(st.sampled_from(['g', 'g', 'item', 'item', 'item', 'ignored'] if depth else ['item']))
    if kind == 'item':
        return draw(item())
    if kind == 'ignored':
        return dict(tag=draw(st.sampled_from(IGNORED)))
    size = draw(st.integers(0, 4))
    return dict(tag='g', children=[draw(node(depth - 1)) for _ in range(size)], **draw(common(True)))


@st.composite
def documents(draw):
    size = draw(st.integers(1, 4))
    children = [draw(node(4)) for _ in range(size)]
    return dict(children=children, view_box=draw(st.one_of(st.none(), st.tuples(_coordinate, _coordinate, st.integers(1, 500), st.integers(1, 500)))),
                width=draw(st.sampled_from([None, '10', '21.5mm', '100%'])), source=draw(st.sampled_from(['text', 'text', 'bytes', 'file'])),
                encoding=draw(st.sampled_from(['UTF-8', 'UTF-8', 'UTF-16', 'ISO-8859-1'])), letter=draw(st.sampled_from(['', '\xe9', '\u70b9'])), margin=draw(st.booleans()),
                namespace=draw(st.sampled_from(['default', 'prefix', 'none'])))


class Renderer:

    def __init__(self, document):
        self.prefix = 's:' if document['namespace'] == 'prefix' else ''
        self.number = 0
        self.text = ''
        root = self.prefix + 'svg'
        attributes = {'default': ' xmlns="http://www.w3.org/2000/svg"', 'prefix': ' xmlns:s="http://www.w3.org/2000/svg"', 'none': ''}[document['namespace']]
        if document['view_box']:
            attributes += ' viewBox="{}"'.format((' ', ',', ', ')[int(document['view_box'][2]) % 3].join(str(x) for x in document['view_box']))
        if document['width']:
            attributes += ' width="{0}" height="{0}"'.format(document['width'])
        # a text is encoded by the library, in UTF-8
        encoding = 'UTF-8' if document['source'] == 'text' else document['encoding']
        self.letter = document['letter']
        self.text = '<?xml version="1.0" encoding="{}" standalone="no"?>\n<{}{}>\n'.format(encoding, root, attributes)
        self.children(document)
        self.text += '</{}>\n'.format(root)
        if document['source'] == 'text':
            self.data = '\n  ' * document['margin'] + self.text
        else:
            self.data = self.text.encode(encoding, 'xmlcharrefreplace')

    def children(self, parent):
        for child in parent['children']:
            self.node(child)

    def node(self, node):
        tag = self.prefix + node['tag']
        if node['tag'] == 'comment':
            self.text += '<!-- <g> -->'
            return
        if node['tag'] == 'pi':
            self.text += '<?g fill="red"?>'
            return
        if node['tag'] in IGNORED:
            self.text += '<{0} id="ignored" fill="green">ignored<{1}circle r="1"/></{0}>'.format(tag, self.prefix)
            return
        self.number += 1
        attributes = [('id', 'n{}{}'.format(self.number, self.letter))] + list(node.get('geometry', ())) + list(node['attributes'])
        layout = node['layout']
        if node['style'] is not None:
            glue = (':', ': ', ' : ', ':')[layout % 4]
            style = (';', '; ')[layout % 2].join(name + glue + value for name, value in node['style'])
            attributes.append(('style', style + ('', ';', '; ', ' ')[(layout + 1) % 4]))
        if node['transforms']:
            attributes.append(('transform', ' '.join('{}({})'.format(name, ','.join(repr(x) for x in values)) for name, values in node['transforms'])))
        if layout & 4:
            attributes.reverse()
        self.text += '<' + tag + ''.join(' {}={}'.format(name, quoteattr(value)) for name, value in attributes)
        if node['tag'] == 'g':
            self.text += '>\n'
            self.children(node)
            self.text += '</{}>\n'.format(tag)
        else:
            self.text += ('/>' if layout & 1 else '></{}>'.format(tag)) + '\n' * (layout & 1)


def to_number(text):
    if text == 'none':
        return None
    try:
        value = float(text)
    except ValueError:
        return text
    return value


def is_value(value, text, source):
    """True if a value of a state is what the text denotes; a length in an attribute has a type for the unit"""
    if source == 'default':
        return value == text
    if text == 'none':
        return value in (None, 'none') if source == 'attribute:stroke-dasharray' else value is None
    if source == 'attribute:stroke-dasharray':
        return list(value) == [float(x) for x in text.split(',')]
    if source == 'attribute:stroke-width' and text.endswith('%'):
        return isinstance(value, PercentValue) and num.close(float(value), float(text[:-1]) / 100)
    if source == 'attribute:stroke-width' and text[-2:].isalpha():
        return isinstance(value, UnitValue) and float(value) == float(text[:-2]) and value.unit == text[-2:]
    expected = to_number(text)
    if isinstance(expected, float):
        return isinstance(value, (int, float)) and value == expected
    return value == expected


class Oracle:

    def __init__(self, document):
        self.events, self.nested = [], False
        self.letter = document['letter']
        state = {name: (value, 'default') for name, value in DEFAULTS.items()}
        self.number = 0
        self.walk(document['children'], state, svgdata.IDENTITY, 0)

    def walk(self, nodes, state, matrix, depth):
        for node in nodes:
            if node['tag'] in IGNORED:
                continue
            self.number += 1
            new_state = dict(state)
            for name, value in node['attributes']:
                if value != 'inherit':
                    new_state[name] = (value, 'attribute:' + name)
            for name, value in node['style'] or ():
                if value != 'inherit':
                    new_state[name] = (value, 'style')
            new_matrix = svgdata.compose(matrix, svgdata.matrix_of_list(node['transforms']))
            self.events.append(('n{}{}'.format(self.number, self.letter), node, state, matrix, new_state, new_matrix))
            if node['tag'] == 'g':
                self.walk(node['children'], new_state, new_matrix, depth + 1)
            elif depth > 1 and len(new_state) > len(DEFAULTS):
                self.nested = True


class Reader(SvgFileInternal):

    def __init__(self, *args, **kwargs):
        self.events = []
        super().__init__(*args, **kwargs)

    def record(self, element):
        state = next(x for x in vars(self).values() if hasattr(x, "state")).state
        states = state.to_dict(all=True), state.clone().merge(element)
        # the default is the states which are set
        for s, d in ((state, states[0]), (states[1], states[1].to_dict(all=True))):
            given = s.to_dict()
            ensure(given == {name: value for name, value in d.items() if value is not None}, 'states {} instead of {}', given, d)
            ensure(str(s) == str(given), 'text {} of {}', str(s), given)
        self.events.append((element, states[0], states[1].to_dict(all=True), state.to_dict(all=True)))

    on_group = record
    on_graphic_item = record


def check_state(state, expected, matrix, what):
    for name, value in state.items():
        if name in ('transform', 'style'):
            continue
        text, source = expected.get(name.replace('_', '-'), (None, 'default'))
        ensure(is_value(value, text, source), '{} {} of {}, expected {} ({})', name, value, what, text, source)
    unknown = {name for name in expected if name.replace('-', '_') not in state}
    ensure(not unknown, 'no state for {}', unknown)
    m = svgdata.patro_matrix(state['transform'])
    scale = max(1., *(abs(x) for x in matrix))
    ensure(all(num.close(x, y, scale, rtol=1e-8, atol=1e-8) for x, y in zip(m, matrix)), 'transformation {} of {}, expected {}', m, what, matrix)


def check_reader(reader, document, oracle):
    ids = [element.id for element, *_ in reader.events]
    ensure(ids == [event[0] for event in oracle.events], 'elements {}, expected {}', ids, [event[0] for event in oracle.events])
    for (element, before, state, after), (_, node, parent_state, parent_matrix, expected, matrix) in zip(reader.events, oracle.events):
        what = '{} {}'.format(element.id, node['tag'])
        ensure(element.__tag__ == node['tag'], 'element {} for {}', element.__tag__, what)
        check_state(before, parent_state, parent_matrix, 'the parent of ' + what)
        check_state(state, expected, matrix, what)
        check_state(after, parent_state, parent_matrix, 'the parent of ' + what)
        given = dict(node.get('geometry', ()))
        for name in GEOMETRY.get(node['tag'], ()):
            if name == 'd':
                points = [(float(p.x), float(p.y)) for p in (element.path_data.p0, list(element.path_data)[-1].stop_point)]
                numbers = [float(x) for x in given['d'][1:].replace('L', '').split()]
                ensure(points == [tuple(numbers[:2]), tuple(numbers[2:])], 'path {} of {}', points, what)
                continue
            value = getattr(element, name)
            if name not in given:
                ensure(value is None, '{} {} of {}', name, value, what)
            elif name == 'points':
                ensure(value == given[name], 'points {} of {}', value, what)
            else:
                ensure(float(value) == float(given[name]), '{} {} of {}, expected {}', name, value, what, given[name])
    box = reader.view_box
    expected = document['view_box']
    if expected is None:
        ensure(box is None, 'view box {}', box)
    else:
        x, y, w, h = expected
        box = (box.x.inf, box.x.sup, box.y.inf, box.y.sup)
        ensure(all(num.close(a, b) for a, b in zip(box, (x, x + w, y, y + h))), 'view box {}, expected {}', box, expected)
    ensure(reader.width == document['width'] and reader.height == document['width'], 'page {} x {}', reader.width, reader.height)


@check.facet(documents(), quick=1500)
def reading(document):
    data = Renderer(document).data
    oracle = Oracle(document)
    if document['source'] == 'file':
        path = Path(scratch()) / 'a{}.svg'.format(document['letter'])
        path.write_bytes(data)
        reader = Reader(str(path) if document['margin'] else path)
    else:
        reader = Reader(None, data=data)
    check_reader(reader, document, oracle)
    return '{} elements'.format(min(8, len(oracle.events) // 4 * 4)) if oracle.nested else None


@st.composite
def deep_node(draw, depth):
    size = draw(st.integers(1, 2))
    children = [draw(item()) for _ in range(size)]
    if depth:
        children.insert(draw(st.integers(0, size)), draw(deep_node(depth - 1)))
        if draw(st.booleans()):
            children.append(draw(item()))
    return dict(tag='g', children=children, **draw(common(True)))


@check.facet(st.tuples(documents(), st.integers(2, 6).flatmap(lambda n: deep_node(n))), quick=500)
def nesting(case):
    """Long chains of groups, with items after the inner groups; the same document read twice in a process"""
    document, chain = case
    document = dict(document, children=[chain] + document['children'])
    data = Renderer(document).data
    oracle = Oracle(document)
    first = Reader(None, data=data)
    second = Reader(None, data=data)
    check_reader(second, document, oracle)
    check_reader(first, document, oracle)
    return 'chain'
