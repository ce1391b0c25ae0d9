"""P29 — Evaluation of sketches"""

import math

from hypothesis import strategies as st

from Patro.GeometryEngine.Vector import Vector2D
from Patro.Pattern.Calculator import Expression

from pbt import sketches
from pbt.harness import Check, ensure
from pbt.patro_sketch import add_operation, make_pattern

check = Check(
    'P29',
    rule='Hypothesis generates well-conditioned sketches of up to 16 operations of all kinds, which refer to previous points by name, identifier or object and whose lengths and angles '
         'are numbers or formulas over measurements, distances, angles and the current length.  The oracle is an independent model with error bounds.  A case is non-trivial '
         'when the sketch has at least four operations of three kinds.',
    assumptions=['directions are defined by points at a distance of at least 0.5, lines are not nearly parallel', 'a contact has exactly one solution in the segment (otherwise it is '
                 'only required to be one of the solutions)'],
)


def near(vector, expected, what, op):
    x, y, error = expected
    tolerance = 100 * error + 1e-9
    ensure(vector is not None and abs(float(vector.x) - x) <= tolerance and abs(float(vector.y) - y) <= tolerance, '{} of {}: {} instead of {}', what, op, vector, (x, y))


def check_sketch(sketch, operations, model, results):
    for op, result, operation in zip(operations, results, sketch.operations):
        geometry = operation.geometry()
        if 'name' in op:
            near(operation.vector, result, 'point', op)
            ensure(operation.name == op['name'], 'name {}', operation.name)
            ensure(geometry == operation.vector and geometry is not operation.vector, 'geometry of {}', op)
        else:
            near(geometry.p0, model.points[op['first_point']], 'start', op)
            near(geometry.end_point if hasattr(geometry, 'end_point') else geometry.p1, model.points[op['second_point']], 'end', op)
        if op['class'] == 'SimpleInteractiveSpline':
            near(geometry.p1, result[0], 'first control point', op)
            near(geometry.p2, result[1], 'second control point', op)
            near(operation.control_point1, result[0], 'first control point', op)
            near(operation.control_point2, result[1], 'second control point', op)
            near(geometry.p3, model.points[op['second_point']], 'end', op)
            ensure(type(geometry).__name__ == 'CubicBezier2D', 'spline {}', geometry)
        elif op['class'] == 'Line':
            ensure(type(geometry).__name__ == 'Segment2D', 'line {}', geometry)
    # the current length is the one of an operation
    try:
        length = Expression('CurrentLength', sketch.calculator).value
    except Exception:
        length = None
    ensure(length is None, 'current length {} after the evaluation', length)


@check.facet(st.tuples(sketches.sketches(), st.lists(st.integers(0, 2), min_size=1, max_size=5), st.sets(st.integers(0, 20))), quick=700, shards=4)
def construction(case):
    (measurements, operations), kinds, evaluations = case
    pattern = make_pattern(measurements)
    sketch = pattern.add_scope('scope').sketch
    made = {}
    counter = [0]

    def reference(name):
        counter[0] += 1
        kind = kinds[counter[0] % len(kinds)]
        return (name, made[name].id, made[name])[kind]

    model = sketches.Model(measurements)
    results = []
    for i, op in enumerate(operations):
        operation = add_operation(sketch, op, reference)
        if 'name' in op:
            made[op['name']] = operation
            ensure(sketch.get_operation(op['name']) is operation, 'access to {}', op['name'])
        ensure(sketch.get_operation(operation.id) is operation and sketch.has_operation_id(operation.id), 'access by identifier')
        results.append(model.evaluate(op))
        if i in evaluations:
            # histories of evaluations
            sketch.eval()
            check_sketch(sketch, operations[:i + 1], model, results)
    sketch.eval()
    ensure(len(sketch.operations) == len(operations), 'number of operations')
    check_sketch(sketch, operations, model, results)

    dag = sketch.calculator.dag
    nodes = {id(node.data): node for node in dag.topological_sort()}
    ensure(len(nodes) == len(operations), 'nodes of the graph')
    for op, operation in zip(operations, sketch.operations):
        expected = sketches.used_points(op, model.measurements)
        dependencies = {p.name for p in operation.dependencies}
        ensure(dependencies == expected and all(p is made[p.name] for p in operation.dependencies), 'dependencies of {}: {} instead of {}', op, dependencies, expected)
        ensure({node.data.name for node in nodes[id(operation)].ancestor} == expected, 'ancestors of {}', op)

    # bounding box: all points, and the control points at most
    box = sketch.bounding_box
    points = [(x, y) for x, y, _ in model.points.values()]
    controls = [(x, y) for result in results if isinstance(result, tuple) and isinstance(result[0], tuple) for x, y, _ in result]
    for axis, side in ((0, box.x), (1, box.y)):
        values, wide = [p[axis] for p in points], [p[axis] for p in points + controls]
        ensure(min(wide) - 1e-6 <= side.inf <= min(values) + 1e-6 and max(values) - 1e-6 <= side.sup <= max(wide) + 1e-6, 'bounding box {}', box)

    kinds = {op['class'] for op in operations}
    return '+'.join(sorted(x[:6] for x in kinds)) if len(operations) >= 4 and len(kinds) >= 3 else None


@check.facet(st.tuples(*[st.tuples(sketches.small, sketches.small)] * 3, sketches.positive, st.one_of(st.none(), st.tuples(sketches.small, sketches.small))), quick=400)
def contact(case):
    p1, p2, c, radius, previous = case
    length = math.hypot(p2[0] - p1[0], p2[1] - p1[1])
    if length < .5:
        return None
    pattern = make_pattern([('a', 1)])
    sketch = pattern.add_scope('scope').sketch
    for name, p in (('P', p1), ('Q', p2), ('C', ('u', 'v'))):
        sketch.SinglePoint(name, *p, Vector2D(1, 1))
    operation = sketch.PointOfContact('X', 'P', 'Q', 'C', radius, Vector2D(1, 1))
    h = ((p2[0] - p1[0]) * (c[1] - p1[1]) - (p2[1] - p1[1]) * (c[0] - p1[0])) / length
    if abs(abs(h) - radius) < 1e-6:
        return None
    if previous is not None:
        # the circle was elsewhere when the sketch was evaluated, there may be a contact on the other side
        sketch.calculator.cache.update(u=previous[0], v=previous[1])
        sketch.eval()
        center = sketch.get_operation('C')
        center.x.set_dirty()
        center.y.set_dirty()
    sketch.calculator.cache.update(u=c[0], v=c[1])
    sketch.eval()
    if abs(h) > radius:
        ensure(operation.vector is None, 'contact of a line that does not meet the circle: {}', operation.vector)
        return 'none'
    vector = operation.vector
    scale = 1 + length + radius + sum(map(abs, p1 + p2 + c))
    ensure(abs(math.hypot(vector.x - c[0], vector.y - c[1]) - radius) < 1e-7 * scale, 'contact {} is not on the circle', vector)
    t = ((vector.x - p1[0]) * (p2[0] - p1[0]) + (vector.y - p1[1]) * (p2[1] - p1[1])) / length
    side = ((vector.x - p1[0]) * (p2[1] - p1[1]) - (vector.y - p1[1]) * (p2[0] - p1[0])) / length
    ensure(abs(side) < 1e-7 * scale, 'contact {} is not on the line', vector)
    t0 = ((c[0] - p1[0]) * (p2[0] - p1[0]) + (c[1] - p1[1]) * (p2[1] - p1[1])) / length
    half = math.sqrt(radius**2 - h**2)
    solutions = [t0 - half, t0 + half]
    inside = [s for s in solutions if 1e-3 < s < length - 1e-3]
    if any(abs(s) < 2e-3 or abs(s - length) < 2e-3 for s in solutions) or not inside:
        return 'outside'
    ensure(any(abs(t - s) < 1e-6 * scale for s in inside), 'contact {} is out of the segment, {} are inside', t, inside)
    return 'first' if inside[0] == solutions[0] else 'second'
