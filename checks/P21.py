"""P21 — Mapping between XML elements and typed objects"""

from xml.etree import ElementTree
from xml.sax.saxutils import escape, quoteattr

from hypothesis import strategies as st
from lxml import etree

from Patro.Common.Xml import Objectivity
from Patro.Common.Xml.Objectivity import (
    BoolAttribute, FloatAttribute, FloatListAttribute, IntAttribute, StringAttribute, TextXmlObjectAdaptator, XmlObjectAdaptator,
)

from pbt import gen
from pbt.harness import Check, ensure, fail

check = Check(
    'P21',
    rule='Hypothesis generates hierarchies of classes (adaptors and plain mixins, several parents, overridden declarations), and XML documents with values in several '
         'spellings and undeclared attributes.  The oracle resolves the declarations by means of the attributes of parallel Python classes, and reads the written XML by '
         'xml.etree.  A case is non-trivial when the class has at least two attributes of which one is given, or one inherited.',
    assumptions=['attributes are distinguished by their XML name', 'finite numbers, XML characters'],
)

TYPES = {'bool': BoolAttribute, 'int': IntAttribute, 'float': FloatAttribute, 'floats': FloatListAttribute, 'string': StringAttribute}
NAMES = ['alpha', 'alpha_beta', 'gamma', 'gammas', 'epsilon', 'zeta']

text = st.text(st.one_of(st.sampled_from('abc ,;<>&"\'\n\t\ré'), st.characters(min_codepoint=0x20, max_codepoint=0xD7FF)), max_size=12)
number = st.one_of(st.integers(-1000, 1000).map(float), st.floats(allow_nan=False, allow_infinity=False))
VALUES = {
    'bool': st.booleans(),
    'int': st.one_of(st.integers(-20, 20), st.integers()),
    'float': number,
    'floats': st.lists(number, max_size=6),
    'string': text,
}


@st.composite
def spellings(draw, kind):
    """A value and its XML form"""
    value = draw(VALUES[kind])
    if kind == 'bool':
        return value, draw(st.sampled_from(['true', '1'] if value else ['false', '0']))
    if kind in ('int', 'float'):
        s = draw(st.sampled_from([str, '{:+}'.format, ' {} '.format])) (value)
        return value, s
    if kind == 'floats':
        separator = draw(st.sampled_from([' ', ',', ', ', '  ']))
        return value, separator.join(repr(x) for x in value)
    return value, value


@st.composite
def declarations(draw):
    name = draw(st.sampled_from(NAMES))
    kind = draw(st.sampled_from(sorted(TYPES)))
    xml = draw(st.sampled_from([None, 'x-' + name, name.upper(), name + '1']))
    default = draw(st.one_of(st.none(), VALUES[kind]))
    return name, kind, xml, default


@st.composite
def hierarchies(draw):
    """Classes: (is mixin, parents, declarations or None)"""
    classes = []
    for i in range(draw(st.integers(1, 5))):
        mixin = draw(st.integers(0, 3)) == 0 and i < 4
        parents = draw(st.lists(st.integers(0, i - 1), max_size=3, unique=True)) if i else []
        if mixin:
            parents = [j for j in parents if classes[j][0]]
        declared = draw(st.one_of(st.none(), st.lists(declarations(), max_size=4), st.lists(declarations(), min_size=1, max_size=4)))
        classes.append((mixin, parents, None if declared is None else list({d[0]: d for d in declared}.values())))
    classes.append((False, draw(st.lists(st.integers(0, len(classes) - 1), min_size=1, max_size=3, unique=True)), draw(st.lists(declarations(), max_size=3))))
    classes[-1] = classes[-1][:2] + (list({d[0]: d for d in classes[-1][2]}.values()),)
    return classes


def build(classes, base):
    """Return the classes, and the declarations which apply to the last one"""
    built, oracle = [], []
    oracle_base = type('O', (), {})
    for i, (mixin, parents, declared) in enumerate(classes):
        bases = tuple(built[j] for j in parents)
        if not mixin and not any(issubclass(b, XmlObjectAdaptator) for b in bases):
            bases = (base,) + bases
        members = {'__tag__': 'tag{}'.format(i)}
        if declared is not None:
            members['__attributes__'] = tuple(TYPES[kind](name, xml, default) for name, kind, xml, default in declared)
        elif mixin and not parents:
            members['__attributes__'] = ()
        metaclass = type if mixin else type(XmlObjectAdaptator)
        built.append(metaclass('C{}'.format(i), bases, members))
        oracle_bases = tuple(oracle[j] for j in parents)
        if len(bases) > len(parents):
            oracle_bases = (oracle_base,) + oracle_bases
        oracle.append(type('O{}'.format(i), oracle_bases, {d[0]: d for d in declared or ()}))
    return built, {name: getattr(oracle[-1], name) for name in NAMES if hasattr(oracle[-1], name)}


def same(a, b):
    if isinstance(b, list):
        return isinstance(a, (list, tuple)) and list(a) == b
    return type(a) is type(b) and a == b


def xml_name(declaration):
    return declaration[2] or declaration[0]


def check_values(obj, expected, what):
    for name, value in expected.items():
        got = getattr(obj, name)
        ensure(same(got, value), '{}: the attribute {} is {!r} instead of {!r}', what, name, got, value)
    d = obj.to_dict()
    ensure(set(d) == set(expected) and all(same(d[k], v) for k, v in expected.items()), '{}: dictionary {} instead of {}', what, d, expected)


def decode(kind, string):
    if kind == 'bool':
        return {'true': True, '1': True, 'false': False, '0': False}[string]
    if kind == 'floats':
        return [float(x) for x in string.replace(',', ' ').split()]
    return {'int': int, 'float': float, 'string': str}[kind](string)


def check_written(cls, obj, declarations, expected, what):
    document = obj.to_xml_string()
    element = ElementTree.fromstring(document)
    ensure(element.tag == cls.__tag__, 'tag {} of {}', element.tag, cls.__tag__)
    written = {xml_name(declarations[name]): value for name, value in expected.items() if value is not None}
    ensure(set(element.attrib) == set(written), '{}: the attributes {} are written instead of {}', what, sorted(element.attrib), sorted(written))
    for name, value in expected.items():
        if value is not None:
            string = element.attrib[xml_name(declarations[name])]
            ensure(same(decode(declarations[name][1], string), value), '{}: {} = {!r} is written {!r}', what, name, value, string)
    again = cls(etree.fromstring(document))
    # an unset attribute reads as its default
    check_values(again, {name: (declarations[name][3] if value is None else value) for name, value in expected.items()}, what + ' read again')
    return again


@st.composite
def cases(draw):
    classes = draw(hierarchies())
    given = {}
    for kind in TYPES:
        for name in NAMES:
            if draw(st.booleans()):
                given[name, kind] = draw(spellings(kind))
    undeclared = draw(st.lists(st.sampled_from(['other', 'text', 'id', 'alphabet', 'Alpha']), max_size=3, unique=True))
    return classes, sorted(given.items()), undeclared, draw(st.lists(st.sampled_from(NAMES), max_size=4)), draw(st.one_of(st.none(), text)), draw(st.booleans())


@check.facet(cases(), quick=700, shards=3)
def mapping(case):
    classes, given, undeclared, changes, content, with_text = case
    given = dict(given)
    try:
        built, declarations = build(classes, TextXmlObjectAdaptator if with_text else XmlObjectAdaptator)
    except TypeError:
        # no consistent resolution order, also for Python
        return None
    cls = built[-1]
    inherited = set(declarations) - {d[0] for d in classes[-1][2]}

    attributes, expected = {}, {}
    kwargs = {}
    for name, declaration in declarations.items():
        key = (name, declaration[1])
        if key in given:
            value, string = given[key]
            attributes[xml_name(declaration)] = string
            kwargs[name] = value
        else:
            value = declaration[3]
        expected[name] = value
    given_count = len(kwargs)
    used = {xml_name(d) for d in declarations.values()}
    for name in undeclared + NAMES + ['x-' + n for n in NAMES]:
        # among them overridden XML names
        if name not in used and (name in undeclared or given_count % 2):
            attributes[name] = 'junk'
    document = '<tag {}>{}</tag>'.format(
        ' '.join('{}={}'.format(name, quoteattr(value, {'\n': '&#10;', '\t': '&#9;', '\r': '&#13;'})) for name, value in attributes.items()), escape(content or '', {'\r': '&#13;'}))

    obj = cls(etree.fromstring(document.encode()))
    check_values(obj, expected, 'read')
    if with_text:
        ensure(obj.text == (content or ''), 'text {!r} instead of {!r}', obj.text, content)
    again = check_written(cls, obj, declarations, expected, 'written')
    if with_text:
        ensure(again.text == (content or ''), 'text {!r} instead of {!r} read again', again.text, content)
        kwargs['text'] = content or ''

    other = cls(**kwargs)
    check_values(other, expected, 'built from keywords')
    other_again = check_written(cls, other, declarations, expected, 'built from keywords')
    if with_text:
        ensure(other.text == (content or '') == other_again.text, 'text {!r} built from keywords', other.text)

    # modifications of an object are not shared
    changed = dict(expected)
    for i, name in enumerate(changes):
        if name in declarations:
            kind = declarations[name][1]
            value = {'bool': not changed[name], 'int': i + 3, 'float': i + .5, 'floats': [i + .5, 1e-7], 'string': 's{}'.format(i)}[kind]
            setattr(obj, name, value)
            changed[name] = value
    check_values(obj, changed, 'modified')
    check_written(cls, obj, declarations, changed, 'modified')
    check_values(again, {name: (declarations[name][3] if value is None else value) for name, value in expected.items()}, 'copy of a modified object')

    # the parents are not changed by their children
    for i, parent in enumerate(built[:-1]):
        if issubclass(parent, XmlObjectAdaptator):
            _, parent_declarations = build(classes[:i + 1], XmlObjectAdaptator)
            ensure({a.py_attribute for a in parent.__attributes__} == set(parent_declarations), 'attributes of a parent class')

    if len(declarations) >= 2 and (given_count or inherited):
        return 'overridden' if inherited and len({d[0] for c in classes for d in c[2] or ()}) < sum(len(c[2] or ()) for c in classes) else 'plain'
    return None


@check.facet(st.sampled_from(['bool', 'int', 'float']).flatmap(lambda kind: st.tuples(st.just(kind), st.sampled_from(['', 'yes', 'TRUE', 'True', '2', '1.5', '1e', '0x10', 'none', '--1', '1 2']))), quick=200)
def rejected(case):
    """A value which is not of the declared type is not read as another one"""
    kind, string = case
    cls = type(XmlObjectAdaptator)('C', (XmlObjectAdaptator,), {'__tag__': 'c', '__attributes__': (TYPES[kind]('alpha'),)})
    element = etree.fromstring('<c alpha={}/>'.format(quoteattr(string)).encode())
    valid = {'bool': [], 'int': ['2'], 'float': ['2', '1.5']}[kind]
    try:
        obj = cls(element)
    except ValueError:
        ensure(string not in valid, '{!r} is rejected for {}', string, kind)
        return 'rejected'
    ensure(string in valid, '{!r} is read as {!r} for {}', string, obj.alpha, kind)
    return None
