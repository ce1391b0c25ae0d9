"""P26 — Valentina pattern files"""

import contextlib
import io
import tempfile
import xml.etree.ElementTree as ElementTree
from pathlib import Path
from xml.sax.saxutils import escape, quoteattr

from hypothesis import strategies as st

from Patro.FileFormat.Valentina.Measurement import VitFile
from Patro.FileFormat.Valentina.Pattern import Modeling, ValFileReader, ValFileWriter
from Patro.FileFormat.Valentina.VitFormat import Detail, DetailNode, ModelingPoint, ModelingSpline
from Patro.GraphicStyle import Color, Colors, StrokeStyle
from Patro.Pattern.Pattern import Pattern

from pbt import sketches
from pbt.harness import Check, ensure, fail
from pbt.patro_sketch import add_operation, make_pattern

check = Check(
    'P26',
    rule='Hypothesis generates patterns of one to three pieces (well-conditioned sketches, see P29) with any styles, formulas, label positions and identifiers.  A pattern file is '
         'written from this description by the check, with comments, optional attributes, unsupported elements and details, and read by the library: the oracle is the description and the '
         'model of the evaluation.  A pattern built with the API is written and read back, and compared.  A case is non-trivial when it has at least four operations of three kinds.',
    assumptions=['names of points are unique in a piece', 'unsupported calculations are not referenced by the others', 'a spline without style is solid'],
)

POINT_TYPES = {'SinglePoint': 'single', 'EndLinePoint': 'endLine', 'AlongLinePoint': 'alongLine', 'NormalPoint': 'normal', 'LineIntersectPoint': 'lineIntersect',
               'PointOfContact': 'pointOfContact', 'PointOfIntersection': 'pointOfIntersection'}
STYLE_NAMES = {'NoPen': 'none', 'SolidLine': 'hair', 'DashLine': 'dashLine', 'DotLine': 'dotLine', 'DashDotLine': 'dashDotLine', 'DashDotDotLine': 'dashDotDotLine'}
ATTRIBUTES = {'base_point': 'basePoint', 'first_point': 'firstPoint', 'second_point': 'secondPoint', 'point1_line1': 'p1Line1', 'point2_line1': 'p2Line1',
              'point1_line2': 'p1Line2', 'point2_line2': 'p2Line2', 'line_style': 'typeLine', 'line_color': 'lineColor'}
SPLINE_ATTRIBUTES = {'first_point': 'point1', 'second_point': 'point4', 'line_style': 'penStyle', 'line_color': 'color'}
COLORS = ['black', 'blue', 'cornflowerblue', 'darkBlue', 'darkGreen', 'darkRed', 'darkviolet', 'deeppink', 'deepskyblue', 'goldenrod', 'green', 'lightsalmon', 'lime', 'mediumseagreen',
          'orange', 'violet', 'yellow']
# SVG colours
RGB = {'black': '#000000', 'darkBlue': '#00008b', 'darkGreen': '#006400', 'darkRed': '#8b0000', 'cornflowerblue': '#6495ed', 'deepskyblue': '#00bfff', 'lightsalmon': '#ffa07a',
       'mediumseagreen': '#3cb371', 'deeppink': '#ff1493'}
UNSUPPORTED = ['<!-- a comment -->', '<arc id="{}" radius="10" angle2="-30" center="71" angle1="30" type="simple" color="black"/>',
               '<elArc id="{}" angle2="300" center="83" radius2="15" rotationAngle="60" radius1="10" angle1="30" type="simple" color="lime"/>',
               '<operation id="{}" center="94" suffix="rot" type="rotation" angle="30"><source><item idObject="88"/></source></operation>',
               '<point id="{}" mx="0.1" length="30" arc="72" name="Cl3" type="cutArc" my="1.4"/>', '<spline id="{}" type="cubicBezierPath" color="violet"><pathPoint pSpline="51"/></spline>',
               '<spline id="{}" type="simple" color="violet"/>', '<point id="{}" type="brandNew" name="Q"/>']
HEADER = ['description', 'notes', 'patternName', 'patternNumber', 'company']
LINE = st.text(st.sampled_from('abc <>&"\'é{}12'), min_size=1, max_size=12)
TEXT = st.text(st.one_of(st.sampled_from('abc <>&"\'é'), st.characters(min_codepoint=0x20, max_codepoint=0xD7FF)), min_size=1, max_size=12)


@st.composite
def patterns(draw):
    """measurements, pieces: name, operations"""
    pieces = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        measurements, operations = draw(sketches.sketches(max_size=10))
        pieces.append((draw(st.one_of(st.sampled_from(['piece', 'Piece']), TEXT)), measurements, operations))
    return pieces


def common(pieces):
    """Rename the measurements so that the pieces have their own values"""
    if len(pieces) == 1:
        return pieces[0][1], [(pieces[0][0], pieces[0][2])]
    table, result = [], []

    def rename(tree, i, names):
        if isinstance(tree, (tuple, list)):
            if tree[0] == 'v' and tree[1] in names:
                return ['v', tree[1] + 'p{}'.format(i)]
            return [tree[0], *(rename(x, i, names) for x in tree[1:])] if tree[0] != 'n' else tree
        return tree

    for i, (name, measurements, operations) in enumerate(pieces):
        names = [x for x, _ in measurements]
        table += [(x + 'p{}'.format(i), value) for x, value in measurements]
        result.append((name, [{k: rename(v, i, names) if k in sketches.EXPRESSIONS else v for k, v in op.items()} for op in operations]))
    return table, result


def xml(tag, attributes):
    return '<{}{}/>'.format(tag, ''.join(' {}={}'.format(k, quoteattr(str(v))) for k, v in attributes))


def element(op, ids, color, reverse):
    kind = op['class']
    tag = 'spline' if kind == 'SimpleInteractiveSpline' else 'line' if kind == 'Line' else 'point'
    attributes = [('id', ids['self'])]
    names = SPLINE_ATTRIBUTES if tag == 'spline' else ATTRIBUTES
    for key, value in op.items():
        name = names.get(key, key)
        if key == 'class' or value is None:
            continue
        if key in sketches.REFERENCES:
            value = ids[value]
        elif key in sketches.EXPRESSIONS:
            value = sketches.text(value)
        elif key == 'line_style':
            value = STYLE_NAMES[value]
        elif key == 'line_color':
            value = color
        elif key == 'label_offset':
            if value != (0, 0) or reverse:
                attributes += [('mx', value[0]), ('my', value[1])]
            continue
        attributes.append((name, value))
    if tag != 'line':
        attributes.append(('type', POINT_TYPES.get(kind, 'simpleInteractive')))
    if reverse:
        attributes.reverse()
    return xml(tag, attributes)


def vit(measurements):
    return ("<?xml version='1.0' encoding='UTF-8'?>\n<vit><version>0.3.3</version><read-only>false</read-only><notes/><unit>cm</unit><pm_system>998</pm_system><personal><customer/>"
            '<birth-date>1800-01-01</birth-date><gender>unknown</gender><email/></personal><body-measurements>'
            + ''.join(xml('m', [('name', name), ('value', value)]) for name, value in measurements) + '</body-measurements></vit>').encode('utf8')


def describe(operation, names=False):
    values = {'id': operation.id}
    for name in ('name', *sketches.EXPRESSIONS, *sketches.REFERENCES, 'label_offset', 'line_style', 'line_color'):
        if hasattr(operation, name):
            value = getattr(operation, name)
            if name in sketches.EXPRESSIONS:
                value = str(value)
            elif name in sketches.REFERENCES:
                value = (value.name, value.id)
            elif name == 'label_offset':
                value = (float(value.x), float(value.y))
            elif isinstance(value, Color):
                value = ('color', str(value))
            values[name] = value
    if type(operation).__name__ == 'SimpleInteractiveSpline' and values['line_style'] is None:
        values['line_style'] = StrokeStyle.SolidLine
    return type(operation).__name__, values


def check_evaluation(op, operation, model):
    result = model.evaluate(op)
    if 'name' in op:
        vector = operation.vector
        ensure(abs(float(vector.x) - result[0]) < 1e-6 and abs(float(vector.y) - result[1]) < 1e-6, 'point {} at {} instead of {}', operation, vector, result)
    elif op['class'] == 'SimpleInteractiveSpline':
        for vector, (x, y, _) in zip((operation.control_point1, operation.control_point2), result):
            ensure(abs(float(vector.x) - x) < 1e-6 and abs(float(vector.y) - y) < 1e-6, 'control point of {} at {}', operation, vector)


def label(pieces):
    operations = [op for _, ops in pieces for op in ops]
    kinds = {op['class'] for op in operations}
    return '{} pieces, {}'.format(len(pieces), '+'.join(sorted(x[:6] for x in kinds))) if len(operations) >= 4 and len(kinds) >= 3 else None


@check.facet(st.tuples(patterns(), st.lists(st.integers(1, 400), min_size=50, max_size=50, unique=True), st.booleans(), st.sampled_from(['relative', 'absolute', 'directory']),
                       st.lists(st.tuples(st.integers(0, 12), st.sampled_from(UNSUPPORTED)), max_size=4), st.lists(st.sampled_from(COLORS + ['#12AbcD', '#f80']), min_size=12, max_size=12),
                       st.booleans(), st.booleans(), st.sampled_from(['cm', 'mm', 'inch']),
                       st.dictionaries(st.sampled_from(HEADER), st.one_of(st.just(''), LINE), max_size=5)), quick=220, shards=4)
def reading(case):
    pieces, numbers, increasing, where, unsupported, colors, reverse, with_details, unit, header = case
    measurements, pieces = common(pieces)
    numbers = list(numbers)
    if increasing:
        numbers.sort()
    lines = ["<?xml version='1.0' encoding='UTF-8'?>", '<pattern>', '<!--Pattern created with Valentina-->', '<version>0.7.10</version>', '<unit>{}</unit>'.format(unit),
             *('<{0}>{1}</{0}>'.format(name, escape(header[name])) for name in HEADER if name in header), '<measurements>{}</measurements>', '<increments/>', '<previewCalculations/>']
    expected, iterator, other = [], iter(numbers), 1000
    for name, operations in pieces:
        lines.append('<draw name={}>\n<calculation>'.format(quoteattr(name)))
        ids, items = {}, []
        for i, op in enumerate(operations):
            for position, text in unsupported:
                if position == i:
                    other += 1
                    lines.append(text.format(other))
            ids['self'] = next(iterator, None)
            if ids['self'] is None:
                return None
            if 'name' in op:
                ids[op['name']] = ids['self']
            color = colors[i % len(colors)]
            items.append((op, ids['self'], color))
            lines.append(element(op, ids, color, reverse))
        lines.append('</calculation>\n<modeling>')
        if with_details:
            for i, (op, id_, _) in enumerate(items):
                tag = 'spline' if op['class'].endswith('Spline') else 'point'
                lines.append('<{} id="{}" idObject="{}" inUse="true" type="modeling"{}/>'.format(tag, 2000 + i, id_, ' mx="0.1" my="0.2"' if tag == 'point' else ''))
        lines.append('</modeling>\n<details>')
        if with_details:
            lines.append('<detail id="3000" version="2" forbidFlipping="false" width="1" united="false" mx="0" name="Devant" inLayout="true" seamAllowance="true" my="0">'
                         '<data letter="" width="0" mx="0" height="0" fontSize="0" visible="false" rotation="0" my="0"/>'
                         '<patternInfo width="0" mx="0" height="0" fontSize="0" visible="false" rotation="0" my="0"/>'
                         '<grainline arrows="0" mx="0" length="0" visible="false" rotation="90" my="0"/><nodes>')
            lines += ['<node idObject="{}" type="NodePoint"/>'.format(2000 + i) for i in range(len(items))]
            lines.append('</nodes></detail>')
        lines.append('</details>\n<groups/>\n</draw>')
        expected.append((name, ids, items))
    lines.append('</pattern>')
    with tempfile.TemporaryDirectory() as directory:
        directory = Path(directory)
        vit_path = directory.joinpath('sub', 'm.vit') if where == 'directory' else directory.joinpath('m.vit')
        vit_path.parent.mkdir(exist_ok=True)
        vit_path.write_bytes(vit(measurements))
        path = directory.joinpath('pattern.val')
        path.write_text('\n'.join(lines).replace('<measurements>{}', '<measurements>' + str(vit_path if where == 'absolute' else vit_path.relative_to(directory)), 1), encoding='utf8')
        with contextlib.redirect_stdout(io.StringIO()):
            reader = ValFileReader(path)
            pattern = reader.pattern
        ensure(Path(reader.vit_file.path).samefile(vit_path), 'measurement file {}', reader.vit_file.path)
    ensure({m.name for m in reader.measurements} and len(list(reader.measurements)) == len(measurements), 'measurements')
    ensure(pattern.unit == unit, 'unit {}', pattern.unit)
    texts = {name: header.get(name) or None for name in HEADER}
    found = getattr(getattr(reader, '_internal', None), 'attribute', None)   # not in the API of the reader
    if found is not None:
        ensure({name: found[name] or None for name in HEADER} == texts and found['unit'] == unit, 'header {} instead of {}', found, texts)
    scopes = list(pattern.scopes)
    ensure([scope.name for scope in scopes] == [name for name, *_ in expected], 'pieces {}', pattern.scope_names())
    for scope, (name, ids, items) in zip(scopes, expected):
        operations = list(scope.sketch.operations)
        ensure(len(operations) == len(items), '{} operations instead of {}', len(operations), len(items))
        model = sketches.Model(measurements)
        for operation, (op, id_, color) in zip(operations, items):
            values = {'id': id_}
            for key, value in op.items():
                if key in sketches.REFERENCES:
                    value = (value, ids[value])
                elif key in sketches.EXPRESSIONS:
                    value = str(sketches.text(value))
                elif key == 'line_style':
                    value = StrokeStyle[value] if value else None
                    if value is None and op['class'] == 'SimpleInteractiveSpline':
                        value = StrokeStyle.SolidLine
                elif key == 'line_color':
                    # shorthand
                    color = '#ff8800' if color == '#f80' else RGB.get(color, str(Colors.ensure_color(color)))
                    value = ('color', color.lower()) if value else None
                elif key == 'label_offset':
                    value = tuple(float(x) for x in value)
                if key != 'class':
                    values[key] = value
            kind, found = describe(operation)
            ensure(kind == op['class'], '{} instead of {}', kind, op['class'])
            ensure(found == values, 'operation {} {} instead of {}', kind, found, values)
            ensure(scope.sketch.get_operation(id_) is operation, 'access by identifier')
            check_evaluation(op, operation, model)
    return label(pieces)


@check.facet(st.tuples(patterns(), st.lists(st.one_of(st.none(), st.integers(1, 60)), min_size=40, max_size=40), st.booleans()), quick=220, shards=4)
def roundtrip(case):
    pieces, numbers, with_measurements = case
    measurements, pieces = common(pieces)
    with tempfile.TemporaryDirectory() as directory:
        directory = Path(directory)
        vit_file = None
        if with_measurements:
            directory.joinpath('m.vit').write_bytes(vit(measurements))
            vit_file = VitFile(directory.joinpath('m.vit'))
            pattern = Pattern(vit_file.measurements, 'mm')
        elif len(pieces) == 1 and not any(name in str(pieces) for name, _ in measurements):
            pattern = Pattern(None, 'mm')
        else:
            return None
        used = set()
        for i, (name, operations) in enumerate(pieces):
            sketch = pattern.add_scope(name).sketch
            for j, op in enumerate(operations):
                id_ = numbers[(7 * i + j) % len(numbers)]
                operation = add_operation(sketch, op, **({} if id_ is None or id_ in used else dict(id=id_)))
                used.add(operation.id)
            if (numbers[i] or 0) % 2:
                sketch.eval()
        path, again = directory.joinpath('a.val'), directory.joinpath('b.val')
        ValFileWriter(path, vit_file, pattern)
        # independent reading of the structure
        root = ElementTree.parse(path).getroot()
        ensure(root.tag == 'pattern' and root.findtext('unit') == 'mm' and root.findtext('version'), 'root of the file')
        tags = [x.tag for x in root]
        for tag in ('version', 'unit', 'description', 'notes', 'measurements', 'increments'):
            ensure(tags.count(tag) == 1, 'element {} in {}', tag, tags)
        ensure(tags.count('draw') == len(pieces) and all({'calculation', 'modeling', 'details'} <= {x.tag for x in draw} for draw in root.findall('draw')), 'pieces in {}', tags)
        ensure((root.findtext('measurements') or None) == (str(vit_file.path) if vit_file else None), 'measurements {}', root.findtext('measurements'))
        found = [(draw.get('name'), [(x.tag, x.get('type'), int(x.get('id')), x.get('name')) for x in draw.find('calculation')]) for draw in root.findall('draw')]
        expected = [(name, [('spline' if op['class'].endswith('Spline') else 'line' if op['class'] == 'Line' else 'point',
                             POINT_TYPES.get(op['class']) or ('simpleInteractive' if op['class'] != 'Line' else None), operation.id, op.get('name'))
                            for op, operation in zip(operations, scope.sketch.operations)]) for (name, operations), scope in zip(pieces, pattern.scopes)]
        ensure(found == expected, 'elements {} instead of {}', found, expected)
        with contextlib.redirect_stdout(io.StringIO()):
            reader = ValFileReader(path)
        copy = reader.pattern
        ValFileWriter(again, reader.vit_file, copy)
        if all(op['line_style'] for _, operations in pieces for op in operations if op['class'] == 'SimpleInteractiveSpline'):
            ensure(path.read_bytes() == again.read_bytes(), 'the file written again is different')
    ensure(copy.unit == 'mm' and copy.scope_names() == [name for name, _ in pieces], 'unit and pieces')
    for original, scope, (name, operations) in zip(pattern.scopes, copy.scopes, pieces):
        original.sketch.eval()
        scope.sketch.eval()
        model = sketches.Model(measurements)
        ensure(len(original.sketch.operations) == len(scope.sketch.operations), 'number of operations')
        for a, b, op in zip(original.sketch.operations, scope.sketch.operations, operations):
            ensure(describe(a) == describe(b), 'operation {} instead of {}', describe(b), describe(a))
            ensure({x.name for x in a.dependencies} == {x.name for x in b.dependencies}, 'dependencies of {}', b)
            check_evaluation(op, b, model)
    return label(pieces)


@check.facet(st.lists(st.tuples(st.integers(1, 30), st.integers(1, 99), st.booleans(), st.booleans()), min_size=1, max_size=10, unique_by=lambda x: x[0]).flatmap(
    lambda items: st.tuples(st.just(items), st.lists(st.sampled_from([x[0] for x in items]), min_size=1, max_size=10))), quick=150)
def details(case):
    from lxml import etree
    items, nodes = case
    modeling = Modeling()
    for id_, object_id, spline, in_use in items:
        text = '<{} id="{}" idObject="{}" inUse="{}" type="modeling"/>'.format('spline' if spline else 'point', id_, object_id, 'true' if in_use else 'false')
        item = (ModelingSpline if spline else ModelingPoint)(etree.fromstring(text))
        ensure((item.id, item.object_id, item.in_use) == (id_, object_id, in_use), 'modeling item {}', item)
        modeling.add(item)
    detail = Detail(modeling, etree.fromstring('<detail id="118" version="2" forbidFlipping="false" width="1" united="true" mx="1.5" name="Devant" inLayout="true" seamAllowance="false" my="-2"/>'))
    ensure((detail.id, detail.name, detail.mx, detail.my, detail.united, detail.seamAllowance) == (118, 'Devant', 1.5, -2, True, False), 'detail {}', detail)
    for number in nodes:
        detail.append_node(DetailNode(etree.fromstring('<node idObject="{}" type="NodePoint"/>'.format(number))))
    table = {x[0]: x for x in items}
    found = [(node.object_id, item.id, item.object_id) for node, item in detail.iter_on_nodes()]
    ensure(found == [(x, x, table[x][1]) for x in nodes], 'nodes {}', found)
    return 'repeated' if len(set(nodes)) < len(nodes) else 'nodes' if len(nodes) > 2 else None
