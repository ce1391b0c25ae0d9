"""P25 — Valentina measurement files"""

import tempfile
from datetime import date
from fractions import Fraction
from pathlib import Path
from xml.sax.saxutils import escape, quoteattr

from hypothesis import strategies as st

from Patro.FileFormat.Valentina.Measurement import VitFile
from Patro.Measurement.PersonalData import Gender

from pbt import formula
from pbt.harness import Check, ensure, fail

check = Check(
    'P25',
    rule='Hypothesis generates measurement files (up to 20 standard and custom measurements, values and formulas, comments, optional elements).  The oracle is the generated '
         'description, formulas being evaluated on exact rationals.  A case is non-trivial when a formula refers to another measurement.',
    assumptions=['a custom measurement @x and a measurement C_x are not in the same file', 'formulas refer to measurements that precede them when their name is known by sympy'],
)

NAMES = ['height', 'height_neck_back', 'height_neck', 'hip_circ', 'waist_circ', 'waist_circ_2', 'neck_back_to_waist_b', 'bust', 'A01', 'N', 'E', 'beta', 'S',
         '@length', '@length_2', '@len', '@A01', '@N', '@height', '@hip_circ', '@seam', '@a', '@ab', '@S']
KNOWN = ['N', 'E', 'S', 'beta']

text = st.text(st.one_of(st.sampled_from('abc <>&"\'é\n@'), st.characters(min_codepoint=0x20, max_codepoint=0xD7FF)), max_size=20)
number = st.one_of(st.integers(-200, 200).map(str), st.integers(-20000, 20000).map(lambda i: str(i / 100)), st.sampled_from(['46.', '0', '0.125', '1.5e2']))


@st.composite
def files(draw):
    n = draw(st.integers(0, 20))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True))
    rank = draw(st.permutations(range(n)))
    items = []
    for i, name in enumerate(names):
        others = [names[j] for j in range(n) if rank[j] < rank[i] and (j < i or names[j] not in KNOWN)]
        value = draw(number) if not others or draw(st.booleans()) else draw(formula.trees(others))
        items.append((name, value, draw(st.one_of(st.none(), text)), draw(st.one_of(st.none(), text)), draw(st.integers(0, 3))))
    header = draw(st.fixed_dictionaries(dict(
        unit=st.sampled_from(['cm', 'mm', 'inch']),
        pm_system=st.one_of(st.just('998'), st.integers(0, 999).map(str)),
        gender=st.sampled_from(['unknown', 'female', 'male', 'Female', 'MALE']),
        birth=st.dates(date(1900, 1, 1), date(2030, 12, 31)).map(lambda d: (d.year, d.month, d.day)),
        email=st.one_of(st.none(), st.sampled_from(['a@b.org', 'é@x.fr', 'None'])),
        customer=st.one_of(st.none(), st.sampled_from(['Jean & Co', 'Marie', 'É'])),
        names=st.one_of(st.none(), st.tuples(st.sampled_from(['Doe', 'Müller']), st.sampled_from(['Jane', 'A < B']))),
        notes=st.one_of(st.none(), st.just('some notes')),
    )))
    return header, items


def element(tag, value):
    return '<{}/>'.format(tag) if not value else '<{0}>{1}</{0}>'.format(tag, escape(value))


def attribute(name, value):
    return ' {}={}'.format(name, quoteattr(value, {'\n': '&#10;', '\r': '&#13;', '\t': '&#9;'}))


def document(header, items):
    lines = ["<?xml version='1.0' encoding='UTF-8'?>", '<vit>', '    <!--Measurements created with Valentina (http://www.valentina-project.org/).-->',
             '<version>0.3.3</version>', '<read-only>false</read-only>', element('notes', header['notes']), element('unit', header['unit']),
             element('pm_system', header['pm_system']), '<personal>']
    if header['customer'] is not None or header['names'] is None:
        lines.append(element('customer', header['customer']))
    if header['names'] is not None:
        lines += [element('family-name', header['names'][0]), element('given-name', header['names'][1])]
    lines += [element('birth-date', '{:04}-{:02}-{:02}'.format(*header['birth'])), element('gender', header['gender']), element('email', header['email']),
              '</personal>', '<body-measurements>']
    for name, value, full_name, description, variant in items:
        attributes = [('value', value if isinstance(value, str) else formula.render(value)), ('name', name)]
        if full_name is not None:
            attributes.append(('full_name', full_name))
        if description is not None:
            attributes.append(('description', description))
        if variant & 1:
            attributes.reverse()
        if variant == 2:
            lines.append('<!-- {} -->'.format(name))
        lines.append('<m{}/>'.format(''.join(attribute(*x) for x in attributes)))
    lines += ['</body-measurements>', '</vit>']
    return '\n'.join(lines)


@check.facet(files(), quick=220, shards=2)
def reading(case):
    header, items = case
    table = {name: value for name, value, *_ in items}
    values = {}

    def get(name):
        if name not in values:
            value = table[name]
            values[name] = (Fraction(float(value)), abs(Fraction(float(value)))) if isinstance(value, str) else formula.evaluate(value, get)
        return values[name]

    try:
        for name in table:
            get(name)
    except ZeroDivisionError:
        return None
    with tempfile.TemporaryDirectory() as directory:
        path = Path(directory, 'measurements.vit')
        path.write_bytes(document(header, items).encode('utf8'))
        vit_file = VitFile(path)
        ensure(Path(vit_file.path) == path, 'path {}', vit_file.path)
        measurements = vit_file.measurements
    ensure(measurements.unit == header['unit'] and measurements.pattern_making_system == header['pm_system'], 'unit {} and system {}', measurements.unit,
           measurements.pattern_making_system)
    personal = measurements.personal
    ensure(personal.gender is Gender[header['gender'].upper()], 'gender {}', personal.gender)
    ensure(personal.birth_date == date(*header['birth']) and type(personal.birth_date) is date, 'birth date {}', personal.birth_date)
    ensure(personal.email == (header['email'] or ''), 'email {!r}', personal.email)
    if header['customer'] is not None:
        ensure(personal.customer == header['customer'], 'customer {!r}', personal.customer)
    if header['names'] is not None:
        ensure((personal.last_name, personal.first_name) == header['names'], 'names {!r} {!r}', personal.last_name, personal.first_name)

    ensure([x.valentina_name for x in measurements] == list(table), 'measurements {}', [x.valentina_name for x in measurements])
    python_names = [x.name for x in measurements]
    ensure(len(set(python_names)) == len(table) and all(x.isidentifier() for x in python_names), 'names {}', python_names)
    for name, value, full_name, description, _ in items:
        measurement = measurements[name]
        ensure(measurement.valentina_name == name and measurement.is_custom() == name.startswith('@'), 'name {} of {}', measurement.valentina_name, name)
        ensure(measurements[measurement.name] is measurement and getattr(measurements, measurement.name) is measurement, 'access by {}', measurement.name)
        if not measurement.is_custom():
            ensure(measurement.name == name, 'a standard measurement {} is named {}', name, measurement.name)
        ensure(measurement.full_name == (full_name or '') and measurement.description == (description or ''), 'texts of {}: {!r} {!r}', name, measurement.full_name,
               measurement.description)
        exact, magnitude = values[name]
        ensure(abs(Fraction(measurement.value) - exact) <= Fraction(1, 10**12) * magnitude, '{} = {} is {!r} instead of {!r}', name, measurement.expression, measurement.value, float(exact))
    references = [x for value in table.values() if not isinstance(value, str) for x in formula.names(value)]
    if not references:
        return None
    return 'custom' if any(x.startswith('@') for x in references) else 'formula'
