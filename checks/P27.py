"""P27 — Expressions of patterns"""

import math
from fractions import Fraction

from hypothesis import strategies as st

from Patro.GeometryEngine.Vector import Vector2D
from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
from Patro.Pattern.Calculator import Expression, NamedExpression
from Patro.Pattern.Pattern import Pattern

from pbt import formula
from pbt.harness import Check, ensure

check = Check(
    'P27',
    rule='Hypothesis generates points, measurements, custom measurements (with names that contain each other, look like functions or like exponents of numbers) and expressions over '
         'them, distances and angles between points and the current length.  The oracle evaluates the syntax tree on exact rationals and gives the points in use.  A case is '
         'non-trivial when the expression uses at least two quantities, or two occurrences.',
    assumptions=['arithmetic operators, numbers and parentheses; no curve function', 'an angle between points is in ]-180, 180], and is not evaluated for equal points'],
)

POINTS = ['A', 'A1', 'A10', 'A11', 'B', 'AB', 'Bp', 'Bpp', 'e5', 'Line', 'Spl', 'C', 'x']
STANDARD = ['a', 'ab', 'A', 'B', 'A_B', 'e5', 'e', 'E1', 'line', 'Line1', 'line_A_B', 'Lines_A_B', 'MyLine_A_B', 'CurrentLengths', 'hip_circ', 'hip_circ_2', 'hip', 'max', 'len', 'N', 'é', 'C_b']
CUSTOM = ['@a', '@ab', '@abc', '@A', '@Line_A_B', '@AngleLine_A_B', '@CurrentLength', '@hip_circ', '@hip', '@e5', '@len', '@N']

coordinate = st.one_of(st.integers(-12, 12), st.integers(-5000, 5000).map(lambda i: i / 100))
number = st.one_of(st.integers(-50, 50), st.integers(-5000, 5000).map(lambda i: i / 100))


@st.composite
def cases(draw):
    n = draw(st.integers(2, 6))
    points = draw(st.lists(st.tuples(st.sampled_from(POINTS), coordinate, coordinate), min_size=n, max_size=n, unique_by=lambda p: p[0]))
    n = draw(st.integers(1, 8))
    measurements = draw(st.lists(st.tuples(st.sampled_from(STANDARD + CUSTOM), number), min_size=n, max_size=n, unique_by=lambda m: m[0]))
    current = draw(st.tuples(coordinate, coordinate))
    names = [p[0] for p in points]
    n = draw(st.integers(1, 4))
    pairs = draw(st.lists(st.tuples(st.sampled_from(['Line', 'Line', 'AngleLine']), st.sampled_from(names), st.sampled_from(names)), min_size=n, max_size=n))
    vectors = {name: (x, y) for name, x, y in points}
    pairs = [p for p in pairs if p[0] == 'Line' or vectors[p[1]] != vectors[p[2]]]
    quantities = [m[0] for m in measurements] + ['_'.join(p) for p in pairs] + ['_'.join(p) for p in pairs] + ['CurrentLength']
    k = draw(st.integers(1, 3))
    trees = [draw(formula.trees(quantities)) for _ in range(k)]
    return points, measurements, current, pairs, trees, draw(st.sampled_from(['', ' ', '\t']))


def angle(dx, dy):
    return math.degrees(math.atan2(dy + 0.0, dx))


@check.facet(cases(), quick=800, shards=4)
def values(case):
    points, measurements, current, pairs, trees, space = case
    measurement_set = ValentinaMeasurements()
    quantities = {}
    for name, value in measurements:
        measurement_set.add(name, value)
        quantities[name] = value
    pattern = Pattern(measurement_set, 'cm')
    sketch = pattern.add_scope('scope').sketch
    vectors = {}
    operations = {}
    for name, x, y in points:
        vectors[name] = (x, y)
        operations[name] = sketch.SinglePoint(name, x, y, Vector2D(1, 1))
    sketch.eval()
    calculator = sketch.calculator
    for kind, a, b in pairs:
        dx, dy = vectors[b][0] - vectors[a][0], vectors[b][1] - vectors[a][1]
        quantities['_'.join((kind, a, b))] = math.hypot(dx, dy) if kind == 'Line' else angle(dx, dy)
    quantities['CurrentLength'] = math.hypot(*current)

    def get(name):
        value = Fraction(quantities[name])
        return value, max(abs(value), 180 if name.startswith('AngleLine') else 0)

    label = None
    expressions = []
    for i, tree in enumerate(trees):
        try:
            exact, magnitude = formula.evaluate(tree, get)
        except ZeroDivisionError:
            continue
        text = formula.render(tree)
        if space:
            text = text.replace(' ', space * 2) + space
        expression = NamedExpression('x', text, calculator) if i % 2 else Expression(text, calculator)
        expressions.append((text, tree, exact, magnitude, expression))
        used = formula.names(tree)
        if len(used) > 1:
            label = 'mixed' if len(set(used)) > 1 else 'repeated'
            if any(x.startswith('@') for x in used):
                label += ' custom'

    def evaluate(text, exact, magnitude, expression):
        value = expression.value
        ensure(value is not None and abs(Fraction(value) - exact) <= Fraction(1, 10**11) * magnitude, '{} is {!r} instead of {!r}', text, value, float(exact))

    calculator.set_current_segment(Vector2D(*current))
    for text, tree, exact, magnitude, expression in expressions:
        ensure(expression.expression == text and str(expression) == text, 'text of {!r}: {}', text, expression)
        evaluate(text, exact, magnitude, expression)
        used = {name for x in formula.names(tree) for prefix in ('Line_', 'AngleLine_') if x.startswith(prefix) and x in quantities and x not in dict(measurements)
                for name in x.split('_')[1:]}
        dependencies = {p.name for p in expression.dependencies}
        ensure(dependencies == used and all(p is operations[p.name] for p in expression.dependencies), 'dependencies of {}: {} instead of {}', text, dependencies, used)
        evaluate(text, exact, magnitude, expression)
    # evaluate again, with another current length
    quantities['CurrentLength'] = 3
    calculator.set_current_segment(Vector2D(0, 3))
    for text, tree, exact, magnitude, expression in expressions:
        expression.set_dirty()
        try:
            exact, magnitude = formula.evaluate(tree, get)
        except ZeroDivisionError:
            continue
        evaluate(text, exact, magnitude, expression)
    calculator.unset_current_segment()
    # no current length any more
    for text, tree, exact, magnitude, expression in expressions:
        if 'CurrentLength' in formula.names(tree):
            expression.set_dirty()
            try:
                value = expression.value
            except Exception:
                continue
            ensure(value is None, '{} is {!r} without current segment', text, value)
    return label


@check.facet(st.one_of(number.map(repr), st.sampled_from(['1e3', ' 2 ', 'a', '2*3', '-1', '+.5', '', '1e', '@a', '1-'])), quick=100)
def floats(text):
    try:
        float(text)
        expected = True
    except ValueError:
        expected = False
    expression = Expression(text)
    ensure(expression.is_float() is expected, '{!r} is a float: {}', text, expression.is_float())
    return None


@check.facet(st.tuples(st.lists(st.tuples(st.sampled_from(['a', 'ab', 'b', 'e5', 'zz', 'hip_circ']), number), min_size=1, max_size=4, unique_by=lambda m: m[0]),
                       st.lists(st.sampled_from(['a', 'ab', 'b', 'e5', 'zz', 'hip_circ', '3']), min_size=1, max_size=4), st.sampled_from(['dirty', 'eval', 'none'])), quick=300)
def undefined(case):
    """The value of an expression with an unknown name is None until the name is known and the expression is evaluated again"""
    measurements, names, mode = case
    measurement_set = ValentinaMeasurements()
    calculator = Pattern(measurement_set, 'cm').add_scope('scope').sketch.calculator
    known = {'3': 3}
    text = '+'.join(names)
    expression = NamedExpression('x', text, calculator)
    ensure(expression.name == 'x', 'name')
    unknown = False
    for name, value in [(None, None)] + measurements:
        before = None
        if name is not None:
            before = expression.value
            known[name] = value
            calculator.cache[name] = float(value)
            if mode == 'dirty':
                expression.set_dirty()
            elif mode == 'eval':
                expression.eval()
        missing = [x for x in names if x not in known]
        value = expression.value
        if mode == 'none' and name is not None:
            # the value is kept
            ensure(value == before, '{} is evaluated again: {!r} then {!r}', text, before, value)
        elif missing:
            unknown = True
            ensure(value is None, '{} is {!r} whereas {} are unknown', text, value, missing)
        else:
            exact = sum(Fraction(known[x]) for x in names)
            ensure(value is not None and abs(Fraction(value) - exact) <= Fraction(1, 10**9), '{} is {!r} instead of {!r}', text, value, float(exact))
    return mode if unknown else None
