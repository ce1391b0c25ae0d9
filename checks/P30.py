"""P30 — Description of sketches: statements, graphics, identifiers, re-evaluation"""

import math
from contextlib import suppress

from hypothesis import strategies as st

from Patro.GeometryEngine.Vector import Vector2D
from Patro.GraphicStyle import Color, Colors, StrokeStyle
from Patro.Pattern.Pattern import Pattern
from Patro.Pattern.SketchStyle import DetailSketchStyle

from pbt import sketches
from pbt.harness import Check, ensure, fail
from pbt.patro_sketch import add_operation, make_pattern

check = Check(
    'P30',
    rule='Hypothesis generates well-conditioned sketches (see P29) with any line styles, colours, label offsets and names; patterns of several sketches with automatic and explicit '
         'identifiers.  The statements are executed on an empty sketch, and the two sketches are compared.  The oracle of the graphics is the model of the evaluation.  A '
         'case is non-trivial when the sketch has at least four operations of three kinds, or the identifiers at least one explicit and one automatic.',
    assumptions=['names of points are unique in a sketch'],
)


def describe(sketch):
    """Everything about the operations of a sketch"""
    result = []
    for operation in sketch.operations:
        values = {}
        for name in ('name', *sketches.EXPRESSIONS, *sketches.REFERENCES, 'label_offset', 'line_style', 'line_color', 'vector', 'control_point1', 'control_point2'):
            if hasattr(operation, name):
                value = getattr(operation, name)
                if name in sketches.EXPRESSIONS:
                    value = (float(str(value)) if value.is_float() else str(value), value.value)
                elif name in sketches.REFERENCES:
                    value = value.name
                elif isinstance(value, Vector2D):
                    value = (float(value.x), float(value.y))
                elif isinstance(value, Color):
                    value = ('color', str(value))
                values[name] = value
        result.append((type(operation).__name__, values))
    return result


def describe_item(item):
    style = getattr(item, 'path_style', None)
    attributes = {}
    if style is not None and hasattr(style, 'stroke_color'):
        attributes = {name: str(getattr(style, name)) for name in ('stroke_style', 'stroke_color', 'fill_color', 'line_width')}
    geometry = item.geometry
    return type(item).__name__, str(geometry), attributes, getattr(item, 'text', None)


@check.facet(st.tuples(sketches.sketches(), st.booleans(), st.sampled_from(["", "'", '"', ' ', '\\', "a'b\"c"])), quick=220, shards=4)
def statements(case):
    (measurements, operations), before, suffix = case
    sketch = make_pattern(measurements).add_scope('scope').sketch
    if suffix:
        # names are any text, but the expressions refer to points by their identifier
        used = {name for op in operations for x in sketches.EXPRESSIONS if isinstance(op.get(x), (tuple, list)) for name in sketches.used_points({x: op[x]}, dict(measurements))}
        renamed = {op['name']: op['name'] + suffix for op in operations if 'name' in op and op['name'] not in used}
        operations = [{k: renamed.get(v, v) if k in ('name', *sketches.REFERENCES) else v for k, v in op.items()} for op in operations]
    for op in operations:
        add_operation(sketch, op)
    if not before:
        sketch.eval()
    code = [operation.to_python() for operation in sketch.operations]
    if before:
        sketch.eval()
    ensure([operation.to_python() for operation in sketch.operations] == code, 'the statements depend on the evaluation')
    copy = make_pattern(measurements).add_scope('copy').sketch
    namespace = dict(sketch=copy, Vector2D=Vector2D, StrokeStyle=StrokeStyle, Color=Color)
    for line in code:
        ensure('\n' not in line, 'statement {!r}', line)
        exec(line, namespace)
    copy.eval()
    expected, description = describe(sketch), describe(copy)
    for a, b in zip(expected, description):
        ensure(a == b, 'operation {} instead of {}', b, a)
    ensure(len(expected) == len(description) == len(operations), 'number of operations')
    # graphics
    expected, items = [[describe_item(item) for item in x.detail_scene()] for x in (sketch, copy)]
    ensure(expected == items, 'graphics of the copy')
    # evaluate again
    sketch.eval()
    ensure(describe(sketch) == description, 'the second evaluation is different')
    kinds = {op['class'] for op in operations}
    return '+'.join(sorted(x[:6] for x in kinds)) if len(operations) >= 4 and len(kinds) >= 3 else None


def close(vector, x, y):
    return abs(float(vector.x) - x) < 1e-6 and abs(float(vector.y) - y) < 1e-6


@check.facet(st.tuples(sketches.sketches(), st.one_of(st.none(), st.tuples(st.integers(1, 9), st.integers(1, 30), st.integers(1, 9), st.integers(1, 9)))), quick=220, shards=4)
def graphics(case):
    (measurements, operations), settings = case
    sketch = make_pattern(measurements).add_scope('scope').sketch
    model = sketches.Model(measurements)
    results = []
    for op in operations:
        add_operation(sketch, op)
        results.append(model.evaluate(op))
    sketch.eval()
    if settings is None:
        style = DetailSketchStyle()
        scene = sketch.detail_scene()
    else:
        style = DetailSketchStyle(point_size=settings[0] / 10, font_size=settings[1], line_width=settings[2], construction_line_width=settings[3] / 2, point_color='red',
                                  label_line_width=settings[0] / 4)
        values = (style.point_size, style.font.point_size, style.line_width, style.construction_line_width, style.label_line_width, str(style.point_color), style.label_line_style.line_width)
        ensure(values == (settings[0] / 10, settings[1], settings[2], settings[3] / 2, settings[0] / 4, str(Colors.ensure_color('red')), settings[0] / 4), 'style {} for {}', values, settings)
        scene = sketch.detail_scene(style=style)
    items = list(scene)
    expected = []
    for op, result, operation in zip(operations, results, sketch.operations):
        line = None
        if 'name' in op:
            x, y, _ = result
            dx, dy = op['label_offset']
            expected.append((operation, 'circle', [(x, y)], None))
            expected.append((operation, 'segment', [(x, y), (x + dx, y - dy)], None))
            expected.append((operation, 'text', [(x + dx, y - dy)], op['name']))
            start = {'EndLinePoint': 'base_point', 'AlongLinePoint': 'first_point', 'NormalPoint': 'first_point'}.get(op['class'])
            if start:
                line = ('segment', [model.points[op[start]][:2], (x, y)], style.construction_line_width)
        elif op['class'] == 'Line':
            line = ('segment', [model.points[op['first_point']][:2], model.points[op['second_point']][:2]], style.line_width)
        else:
            line = ('cubic', [model.points[op['first_point']][:2], result[0][:2], result[1][:2], model.points[op['second_point']][:2]], style.line_width)
        if line:
            kind, points, width = line
            color = Colors.ensure_color(op['line_color'] or 'black')
            expected.append((operation, kind, points, (width, StrokeStyle[op['line_style'] or 'SolidLine'], str(color))))
    ensure(len(items) == len(expected), '{} items instead of {}', len(items), len(expected))
    for item, (operation, kind, points, extra) in zip(items, expected):
        geometry = item.geometry
        ensure(item.user_data is operation, 'user data of {}', item)
        if kind == 'circle':
            ensure(type(item).__name__ == 'CircleItem' and close(geometry.center, *points[0]) and geometry.radius == style.point_size, 'point {} of {}', geometry, operation)
            ensure(str(item.path_style.fill_color) == str(style.point_color), 'colour of the point')
        elif kind == 'text':
            ensure(type(item).__name__ == 'TextItem' and item.text == extra and (item.font.family, item.font.point_size) == (style.font.family, style.font.point_size), 'label {!r}', item.text)
            position = scene.cast_position(item.position) if not isinstance(item.position, Vector2D) else item.position
            ensure(close(position, *points[0]), 'position {} of the label of {}', position, operation)
        else:
            ensure(type(item).__name__ == ('SegmentItem' if kind == 'segment' else 'CubicBezierItem'), 'item {} of {}', item, operation)
            found = geometry.points if not callable(geometry.points) else geometry.points()
            found = list(found)
            ensure(len(found) == len(points) and all(close(p, *q) for p, q in zip(found, points)), '{} of {} instead of {}', geometry, operation, points)
            path_style = item.path_style
            if extra is None:
                ensure(path_style.line_width == style.label_line_width, 'width of the label line')
            else:
                ensure((path_style.line_width, path_style.stroke_style, str(path_style.stroke_color)) == extra, 'style {} of {} instead of {}', path_style, operation, extra)
    # the style of an operation can be changed
    changed = {}
    for i, operation in enumerate(sketch.operations):
        if hasattr(operation, 'line_style') and i % 2 == 0:
            operation.line_style, operation.line_color = StrokeStyle.DashLine, Colors.ensure_color('teal')
            changed[id(operation)] = (StrokeStyle.DashLine, str(Colors.ensure_color('teal')))
    again = list(sketch.detail_scene(style=style))
    ensure(len(again) == len(items), 'number of items of the second scene')
    for item, (operation, kind, points, extra) in zip(again, expected):
        if extra is not None and kind != 'text':
            path_style = item.path_style
            wanted = changed.get(id(operation), extra[1:])
            ensure((path_style.line_width, path_style.stroke_style, str(path_style.stroke_color)) == (extra[0],) + tuple(wanted), 'style {} of {} instead of {}', path_style, operation, wanted)
    kinds = {op['class'] for op in operations}
    return '+'.join(sorted(x[:6] for x in kinds)) if len(operations) >= 4 and len(kinds) >= 3 else None


@check.facet(st.integers(1, 14).flatmap(lambda n: st.lists(st.tuples(st.integers(0, 2), st.one_of(st.none(), st.integers(1, 12), st.integers(1, 60)),
                                                                      st.sampled_from(['point', 'point', 'line', 'bad'])), min_size=n, max_size=n)), quick=600, shards=2)
def identifiers(history):
    pattern = make_pattern([('a', 1)])
    other = make_pattern([('a', 1)]).add_scope('other').sketch
    used, scopes = set(), []
    per_sketch = [{}, {}, {}]
    for name in 'xyz':
        scopes.append(pattern.add_scope(name))
    ensure(pattern.scope_names() == ['x', 'y', 'z'] and [pattern.scope(i) for i in range(3)] == scopes and [pattern.scope(i) for i in 'xyz'] == scopes, 'scopes')
    kinds = set()
    for i, (index, id_, kind) in enumerate(history):
        sketch = scopes[index].sketch
        points = [x for x in sketch.operations if hasattr(x, 'name')]
        kwargs = {} if id_ is None else dict(id=id_)
        number = len(sketch.operations)
        try:
            if kind == 'line' and points:
                operation = sketch.Line(points[0], points[-1].name, **kwargs)
            else:
                operation = sketch.SinglePoint('P{}'.format(i), i, i, Vector2D(0, 0), **kwargs)
        except NameError:
            ensure(id_ in used, 'the identifier {} is refused', id_)
            ensure(len(sketch.operations) == number, 'a refused operation is in the sketch')
            kinds.add('refused')
            continue
        ensure(id_ is None or id_ not in used, 'the identifier {} is given twice', id_)
        ensure(operation.id not in used and int(operation) == operation.id, 'identifier {} is already in use', operation.id)
        ensure(id_ is None or operation.id == id_, 'identifier {} instead of {}', operation.id, id_)
        if id_ is None:
            ensure(all(operation.id > x for x in used), 'the identifier {} is not greater than the previous ones', operation.id)
        kinds.add('automatic' if id_ is None else 'explicit')
        used.add(operation.id)
        per_sketch[index][operation.id] = operation
        # independent of the other patterns
        for table, scope in zip(per_sketch, scopes):
            for key, value in table.items():
                ensure(scope.sketch.get_operation(key) is value, 'access to {}', key)
            for key in used - set(table):
                ensure(not scope.sketch.has_operation_id(key), 'the identifier {} is known by another sketch', key)
    ensure(other.SinglePoint('A', 0, 0, Vector2D(0, 0), id=1).id == 1, 'identifiers of another pattern')
    ensure([list(scope.sketch.operations) for scope in scopes] == [list(table.values()) for table in per_sketch], 'operations of the sketches')
    return '+'.join(sorted(kinds)) if {'automatic', 'explicit'} <= kinds else None


_scope_name = st.sampled_from(['x', 'X', 'xy', 'y', '', 'z 1'])


@check.facet(st.lists(st.one_of(st.tuples(st.sampled_from(['add', 'add', 'remove', 'point']), _scope_name), st.tuples(st.just('rename'), st.integers(0, 3), _scope_name)), min_size=2, max_size=14), quick=300)
def scopes(history):
    """Pieces of a pattern: added, renamed, removed; versus a list"""
    pattern = make_pattern([('a', 1)])
    model, used, label = [], set(), None
    for step in history:
        kind, name = step[0], step[-1]
        first = next((i for i, (key, _, _) in enumerate(model) if key == name), None)
        if kind == 'add':
            model.append((name, pattern.add_scope(name), []))
            label = label if first is None else 'same name'
        elif kind == 'remove':
            pattern.remove_scope(name)
            if first is not None:
                model.pop(first)
                label = label or 'removed'
        elif kind == 'rename':
            if step[1] < len(model):
                scope = pattern.scope(step[1])
                scope.name = name
                model[step[1]] = (name,) + model[step[1]][1:]
        elif first is not None:
            operation = model[first][1].sketch.SinglePoint('A{}'.format(len(used)), 1, 2, Vector2D(0, 0))
            ensure(operation.id not in used, 'the identifier {} is given twice', operation.id)
            used.add(operation.id)
            model[first][2].append(operation)
        found = list(pattern.scopes)
        ensure(len(found) == len(model) and all(a is b for a, (_, b, _) in zip(found, model)), 'pieces {} instead of {}', pattern.scope_names(), [x[0] for x in model])
        ensure(pattern.scope_names() == [x[0] for x in model], 'names {}', pattern.scope_names())
        for i, (key, scope, operations) in enumerate(model):
            ensure(pattern.scope(i) is scope and scope.measurements is pattern.measurements and scope.unit == pattern.unit, 'piece {}', i)
            ensure(list(scope.sketch.operations) == operations, 'operations of the piece {}', i)
        for key in ('x', 'X', 'xy', 'y', '', 'z 1', 'missing'):
            expected = next((scope for name, scope, _ in model if name == key), None)
            ensure(pattern.scope(key) is expected, 'piece {!r}', key)
    return label
