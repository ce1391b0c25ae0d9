"""P28 — Sets of measurements: formulas and YAML files"""

import math
import tempfile
from fractions import Fraction
from pathlib import Path

import sympy
from hypothesis import strategies as st

from Patro.Measurement import Measurement, MeasurementSet

from pbt import formula
from pbt.harness import Check, ensure, fail

check = Check(
    'P28',
    rule='Hypothesis generates sets of 1 to 14 measurements (numbers, decimal strings and formulas over any other measurement, without cycle), defined in any order, with queries '
         'between definitions.  The oracle evaluates the syntax trees of the formulas on exact rationals.  A case is non-trivial when a formula refers to another measurement.',
    assumptions=['references to measurements defined later do not use names that sympy knows', 'names are Python identifiers', 'denominators are not null'],
)

# sympy gives a meaning to these names
KNOWN = ['E', 'N', 'S', 'I', 'pi', 'beta', 'Q', 'C', 'O', 'gamma', 'zeta', 'cos', 'test', 'oo', 'GF']
COMMON = ['a', 'b', 'ab', 'a_b', 'x1', 'A01', 'A02', 'hip', 'waist', 'waist_circ', 'waist_circ_2', 'neck', 'bust', 'bust_arc', 'height', 'leg', 'arm', 'e', 'n', 'i']

text = st.text(st.one_of(st.sampled_from('abc :-#"\'é\n{}[],&*!|>%@`'), st.characters(min_codepoint=0x20, max_codepoint=0xD7FF)), max_size=20)
number = st.one_of(st.integers(-200, 200), st.integers(-20000, 20000).map(lambda i: i / 100), st.floats(-1e6, 1e6).map(lambda x: x if abs(x) > 1e-6 else 0.25))


@st.composite
def sets(draw):
    n = draw(st.integers(1, 14))
    names = draw(st.lists(st.sampled_from(KNOWN + COMMON), min_size=n, max_size=n, unique=True))
    # definition order; dependencies follow the order of a permutation
    rank = draw(st.permutations(range(n)))
    forward = draw(st.booleans())
    items = []
    for i, name in enumerate(names):
        others = [names[j] for j in range(n) if rank[j] < rank[i] and (j < i or (forward and names[j] not in KNOWN))] if forward else names[:i]
        kind = draw(st.sampled_from(['number', 'string', 'formula', 'formula', 'formula']))
        if kind == 'number' or (kind == 'formula' and not others and draw(st.booleans())):
            value = draw(number)
        elif kind == 'string':
            value = draw(st.one_of(number.map(repr), st.tuples(st.integers(-99, 99), st.integers(1, 16)).map('{0[0]}/{0[1]}'.format)))
        else:
            value = draw(formula.trees(others))
        query = draw(st.sampled_from([None, None, 'value', 'expression', 'again', 'all']))
        items.append((name, value, draw(st.sampled_from(['', 'Full name'])) or draw(text), draw(st.one_of(st.just(''), text)), query))
    return items


def evaluate(items):
    values = {}
    table = {name: value for name, value, *_ in items}

    def get(name):
        if name not in values:
            value = table[name]
            if isinstance(value, str):
                value = Fraction(value) if 'e' not in value else Fraction(float(value))
            if isinstance(value, (int, float, Fraction)):
                values[name] = (Fraction(value), abs(Fraction(value)))
            else:
                values[name] = formula.evaluate(value, get)
        return values[name]

    for name in table:
        get(name)
    return values


def close(value, expected):
    exact, magnitude = expected
    return type(value) is float and math.isfinite(value) and abs(Fraction(value) - exact) <= Fraction(1, 10**12) * magnitude


def resolved(name, table, seen):
    """the references of a measurement are defined"""
    if name not in seen:
        return False
    value = table[name]
    return not isinstance(value, (tuple, list)) or all(resolved(x, table, seen) for x in formula.names(value))


@check.facet(sets(), quick=260, shards=2)
def evaluation(items):
    try:
        expected = evaluate(items)
    except ZeroDivisionError:
        return None
    table = {name: value for name, value, *_ in items}
    measurements = MeasurementSet(unit='cm')
    seen = []
    for name, value, full_name, description, query in items:
        source = formula.render(value) if isinstance(value, (tuple, list)) else value
        measurement = measurements.add(name, source, full_name, description)
        seen.append(name)
        ensure(measurement.name == name and measurement.full_name == full_name and measurement.description == description, 'fields of {}', name)
        ensure(measurements[name] is measurement and getattr(measurements, name) is measurement, 'the set does not give {}', name)
        if query == 'again':
            try:
                measurements.add(name, 1)
            except NameError:
                pass
            else:
                fail('a second {} is accepted', name)
            ensure(measurements[name] is measurement, 'a refused measurement replaces {}', name)
        if query == 'all':
            queried = list(seen)
        else:
            queried = [name] if query else []
        for x in queried:
            if resolved(x, table, seen):
                ensure(close(measurements[x].value, expected[x]), '{} = {} is {!r} instead of {!r}', x, measurements[x].expression, measurements[x].value, float(expected[x][0]))
            elif query == 'expression':
                measurements[x].evaluated_expression
            else:
                try:
                    value = measurements[x].value
                except TypeError:
                    pass
                else:
                    # symbols can cancel
                    ensure(close(value, expected[x]), '{} is evaluated as {} without its references', x, value)
    ensure([x.name for x in measurements] == seen, 'enumeration {}', [x.name for x in measurements])
    ensure([x.name for x in measurements.sorted_iter()] == sorted(seen), 'sorted enumeration')
    for name in seen:
        ensure(close(float(measurements[name]), expected[name]), '{} = {} is {!r} instead of {!r}', name, measurements[name].expression, float(measurements[name]), float(expected[name][0]))
    # the dump lists them by name: name = expression, = evaluated expression, = value
    lines = [line for line in measurements.dump().splitlines() if line.strip()]
    ensure(len(lines) == 3 * len(seen), 'dump of {} measurements in {} lines', len(seen), len(lines))
    for i, name in enumerate(sorted(seen)):
        head, *others = lines[3 * i:3 * i + 3]
        ensure(head == '{} = {}'.format(name, measurements[name].expression), 'dump of {}: {!r}', name, head)
        ensure(all(line.startswith('  = ') for line in others), 'dump of {}: {!r}', name, others)
        ensure(close(float(others[1][4:]), expected[name]), 'dumped value of {}: {!r}', name, others[1])
    check_files(measurements, expected)
    references = [x for value in table.values() if isinstance(value, (tuple, list)) for x in formula.names(value)]
    return ('chained' if any(isinstance(table[x], (tuple, list)) for x in references) else 'formula') if references else None


def check_files(measurements, expected):
    with tempfile.TemporaryDirectory() as directory:
        path = Path(directory, 'measurements.yaml')
        measurements.save_as_yaml(path)
        loaded = MeasurementSet()
        loaded.load_yaml(path)
        ensure(sorted(x.name for x in loaded) == sorted(expected), 'names of the loaded set: {}', [x.name for x in loaded])
        again = Path(directory, 'again.yaml')
        loaded.save_as_yaml(again)
        twice = MeasurementSet()
        twice.load_yaml(again)
        for measurement in measurements:
            for other in (loaded[measurement.name], twice[measurement.name]):
                ensure((other.full_name, other.description) == (measurement.full_name, measurement.description), 'texts of {}: {!r} {!r}', other.name, other.full_name, other.description)
                ensure(close(other.value, expected[other.name]), 'value of {} after loading: {!r} instead of {!r}', other.name, other.value, measurement.value)
                ensure(sympy.sympify(other.expression).free_symbols == sympy.sympify(measurement.expression).free_symbols, 'expression of {} after loading: {} instead of {}',
                       other.name, other.expression, measurement.expression)
        # the loaded set is made of the same formulas, not of their values
        variables = {x: Fraction(i * i + 3, 7) for i, x in enumerate(sorted(expected))}
        for measurement in measurements:
            a, b = (float(sympy.sympify(x[measurement.name].expression).subs({sympy.Symbol(k): sympy.Rational(v.numerator, v.denominator) for k, v in variables.items()}))
                    if sympy.sympify(x[measurement.name].expression).free_symbols else 0 for x in (measurements, loaded))
            ensure(abs(a - b) <= 1e-8 * max(abs(a), abs(b)) + 1e-6 or not math.isfinite(a), 'formula of {} after loading: {} instead of {}',
                   measurement.name, loaded[measurement.name].expression, measurement.expression)


@check.facet(st.tuples(st.text(st.sampled_from('abYZ09_ -.@+é*'), min_size=1, max_size=6), number), quick=400)
def naming(case):
    name, value = case
    valid = all(c.isalnum() or c in '_ ' for c in name)
    measurements = MeasurementSet()
    try:
        measurement = measurements.add(name, value)
    except ValueError:
        ensure(not valid, '{!r} is refused', name)
        ensure(not list(measurements), 'a refused measurement is registered')
        return 'refused'
    ensure(valid, '{!r} is accepted', name)
    expected = name.replace(' ', '_')
    ensure(measurement.name == expected and measurements[expected] is measurement, 'name {!r}', measurement.name)
    ensure(measurement.value == value and float(measurement) == value, 'value {!r}', measurement.value)
    return 'space' if ' ' in name else None
