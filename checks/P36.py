"""P36 — Colours and graphic styles"""

import colorsys
import copy
import math

from hypothesis import strategies as st

from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicBezierStyle, GraphicPathStyle
from Patro.GraphicStyle import CapStyle, Colors, JoinStyle, StrokeStyle
from Patro.GraphicStyle.Color import color_data
from Patro.GraphicStyle.Color.ColorDataBase import Color, ColorDataBase

from pbt.harness import Check, ensure, fail

check = Check(
    'P36',
    rule='Hypothesis generates colours by notation, components or hue systems with histories of modifications, colour databases with registered names, and graphic styles '
         'with histories of settings and clones.  The oracles are hexadecimal formatting, the standard hue conversions, a dictionary of names and a dictionary of settings.  '
         'A case is non-trivial when the colour is neither black nor white, or at least two names or settings are given.',
    assumptions=['components between 0 and 255 or 0. and 1.', 'line widths are positive'],
)

byte = st.integers(0, 255)
unit = st.one_of(st.integers(0, 255).map(lambda i: i / 255), st.integers(0, 1000).map(lambda i: i / 1000), st.floats(0, 1))
component = st.one_of(byte, unit)
hue_unit = st.one_of(st.sampled_from([0, 1, 0., 1., .5]), unit)


def level(x):
    return x if isinstance(x, int) else x * 255


def check_components(color, components, what):
    floats = (color.red_float, color.green_float, color.blue_float)
    ints = (color.red, color.green, color.blue)
    for got, f, c in zip(ints, floats, components):
        ensure(type(got) is int and abs(got - level(c)) <= .5 + 1e-9, '{}: component {} instead of {}', what, got, c)
        ensure(type(f) is float or f == 0, '{}: component {!r}', what, f)
        ensure(abs(f - level(c) / 255) < 1e-12, '{}: component {} instead of {}', what, f, c)
    ensure(str(color) == '#' + ''.join('{:02x}'.format(i) for i in ints), '{}: notation {} of {}', what, str(color), ints)
    for got, expected in ((color.hls, colorsys.rgb_to_hls(*floats)), (color.hsv, colorsys.rgb_to_hsv(*floats))):
        ensure(all(abs(a - b) < 1e-12 for a, b in zip(got, expected)), '{}: hue {} instead of {}', what, got, expected)


@check.facet(st.tuples(
    st.sampled_from(['hex', 'upper', 'short', 'components', 'hls', 'hsv', 'color', 'name']), st.tuples(component, component, component), st.tuples(byte, byte, byte),
    st.tuples(hue_unit, hue_unit, hue_unit),
    st.lists(st.tuples(st.sampled_from(['red', 'green', 'blue', 'clone', 'name']), component), max_size=5)), quick=2500)
def colors(case):
    kind, components, levels, hues, history = case
    name = None
    if kind in ('hex', 'upper'):
        notation = '#' + ''.join('{:02x}'.format(x) for x in levels)
        color, expected = Color(notation.upper() if kind == 'upper' else notation), levels
        ensure(str(color) == notation and color == notation and color == Color(notation), '{} instead of {}', color, notation)
    elif kind == 'short':
        digits = [x % 16 for x in levels]
        color, expected = Color('#' + ''.join('{:x}'.format(d) for d in digits)), [17 * d for d in digits]
    elif kind == 'components':
        color, expected = Color(*components), components
    elif kind == 'name':
        name = 'my colour'
        color, expected = Color(*components, name=name), components
    elif kind == 'color':
        color, expected = Color(Color(*components)), components
    elif kind == 'hls':
        h, l, s = hues
        color, expected = Color(hue=h, light=l, saturation=s), [float(x) for x in colorsys.hls_to_rgb(h, l, s)]
    else:
        h, s, v = hues
        color, expected = Color(hue=h, saturation=s, value=v), [float(x) for x in colorsys.hsv_to_rgb(h, s, v)]
    check_components(color, expected, kind)
    ensure(color.name == name, 'name {!r} instead of {!r}', color.name, name)
    black = Color(name='nothing')
    ensure(str(black) == '#000000' and (black.red, black.green, black.blue) == (0, 0, 0) and black.name == 'nothing', 'colour without components: {}', black)
    try:
        bad = Color(*components, hue=hues[0], saturation=hues[1])
    except ValueError:
        pass
    else:
        fail('a hue without a light is accepted as {}', bad)

    again = Color(str(color))
    ensure(str(again) == str(color) and again == color, 'the notation {} is read as {}', color, again)
    integers = Color(color.red, color.green, color.blue)
    ensure(integers == color, 'the integer components of {} give {}', color, integers)
    for i in range(3):
        other = [color.red, color.green, color.blue]
        other[i] = (other[i] + 1 + 15 * (levels[i] % 2)) % 256
        other = Color(*other)
        ensure(not (other == color) and other != color, '{} equals {}', other, color)

    expected = list(expected)
    frozen = []
    for operation, x in history:
        if operation == 'clone':
            frozen.append((color, list(expected), color.name))
            color = color.clone()
        elif operation == 'name':
            name = 'c{}'.format(x)
            color.name = name
        else:
            setattr(color, operation, x)
            expected[('red', 'green', 'blue').index(operation)] = x
        check_components(color, expected, operation)
        ensure(color.name == name, 'name after {}: {!r} instead of {!r}', operation, color.name, name)
    for c, e, n in frozen:
        check_components(c, e, 'source of a clone')
        ensure(c.name == n, 'name of the source of a clone')
    return None if color == '#000000' or color == '#ffffff' else kind


BAD = st.one_of(
    st.sampled_from(['', '#', 'red', 'ff0000', '#ff', '#ff00', '#ff000', '#gggggg', '#ff00000', '#ff000000', '#-1-1-1', '# 1 1 1', '#+1+1+1', '#0x0x0x', 'rgb(1,2,3)']),
    st.text('#0123456789abcdefgG -+', max_size=9),
)


@check.facet(st.one_of(st.tuples(st.just('notation'), BAD), st.tuples(st.just('component'), st.one_of(st.integers(-300, -1), st.integers(256, 900), st.floats(1.001, 300), st.floats(-300, -.001)))), quick=700)
def rejected(case):
    kind, x = case
    if kind == 'notation':
        valid = len(x) in (4, 7) and x[0] == '#' and all(c in '0123456789abcdefABCDEF' for c in x[1:])
        makers = [lambda: Color(x), lambda: Colors.ensure_color(x)]
        if x in Colors:
            makers.pop()
    else:
        valid = False

        def set_red():
            color = Color(1, 2, 3)
            color.red = x
        makers = [lambda: Color(x, 0, 0), lambda: Color(0, x, 0), lambda: Color(0, 0, x), set_red]
    for make in makers:
        try:
            color = make()
        except (ValueError, KeyError):
            ensure(not valid, '{!r} is rejected', x)
        else:
            ensure(valid, '{!r} is accepted as {}', x, color)
    return kind


NAMES = ['red', 'dark', 'sea', 'x', 'add', 'clone', 'é', '1']


@check.facet(st.lists(st.tuples(st.sampled_from(['add', 'add', 'get', 'ensure', 'iterate', 'copy']), st.sampled_from(NAMES), st.tuples(byte, byte, byte)), min_size=2, max_size=14), quick=700)
def databases(case):
    database, model = ColorDataBase(), {}
    for operation, name, components in case:
        if operation == 'add':
            color = Color(*components, name=name)
            database.add(name, color)
            model[name] = color
        elif operation == 'copy':
            database, model = copy.copy(database), model
        ensure(len(database) == len(model) and (name in database) == (name in model), 'names of the database')
        if name in model:
            ensure(database[name] is model[name] and database.ensure_color(name) is model[name], 'colour {}', name)
            if name not in ('add', 'clone'):
                ensure(getattr(database, name) is model[name], 'attribute {}', name)
        else:
            for get in (lambda: database[name], lambda: database.ensure_color(name)):
                try:
                    get()
                except KeyError:
                    continue
                fail('the unknown colour {} was found', name)
            ensure(hasattr(database, name) == (name == 'add'), 'attribute {} of an unknown colour', name)
        ensure(list(database.iter_names()) == list(model), 'names')
        ensure([id(c) for c in database] == [id(c) for c in model.values()], 'colours')
        color = Color(*components, name=name)
        ensure(database.ensure_color(color) is color and database.ensure_color(None) is None and database.ensure_color(str(color)) == color, 'colour arguments')
    for junk in (1, 2., ['red'], b'red'):
        try:
            database.ensure_color(junk)
        except ValueError:
            continue
        fail('{!r} is accepted as a colour', junk)
    return None if len(model) < 2 else 'database'


SETS = [getattr(color_data, name) for name in ('BASE_COLORS', 'TABLEAU_COLORS', 'XKCD_COLORS', 'CSS4_COLORS', 'QML_COLORS', 'VALENTINA_COLORS')]
FIRST = {}
for _set in SETS:
    for _name, _value in _set.items():
        FIRST.setdefault(_name.replace(' ', '_'), _value)


@check.facet(st.sampled_from(sorted(FIRST)), quick=1500)
def registered(name):
    color = Colors[name]
    ensure(str(color) == FIRST[name].lower(), 'colour {} is {} instead of {}', name, color, FIRST[name])
    ensure(color.name == name and name in Colors and Colors.ensure_color(name) is color and len(Colors) == len(FIRST), 'registration of {}', name)
    if name.isidentifier():
        ensure(getattr(Colors, name) is color, 'attribute {}', name)
    return None if str(color) in ('#000000', '#ffffff') else 'registered'


alpha = st.one_of(st.integers(0, 1), unit)
color_argument = st.one_of(st.none(), st.sampled_from(['red', 'black', 'seagreen', 'cloudy_blue']), st.tuples(byte, byte, byte), st.tuples(byte, byte, byte).map(lambda c: '#{:02x}{:02x}{:02x}'.format(*c)))
SETTINGS = {
    'stroke_style': st.sampled_from([s.name for s in StrokeStyle]),
    'line_width': st.one_of(st.integers(1, 9), st.integers(1, 900).map(lambda i: i / 100), st.sampled_from(['.5', '2'])),
    'stroke_color': color_argument,
    'stroke_alpha': alpha,
    'fill_color': color_argument,
    'fill_alpha': alpha,
    'cap_style': st.sampled_from([s.name for s in CapStyle]),
    'join_style': st.sampled_from([s.name for s in JoinStyle]),
    'show_control': st.booleans(),
    'control_color': color_argument,
}
ENUMS = {'stroke_style': StrokeStyle, 'cap_style': CapStyle, 'join_style': JoinStyle}
DEFAULTS = {
    'stroke_style': 'SolidLine', 'line_width': 1., 'stroke_color': 'black', 'stroke_alpha': 1., 'fill_color': None, 'fill_alpha': 1., 'cap_style': 'SquareCap', 'join_style': 'BevelJoin',
    'show_control': False, 'control_color': None,
}
setting = st.sampled_from(sorted(SETTINGS)).flatmap(lambda name: st.tuples(st.just(name), SETTINGS[name]))


def argument(name, value):
    if name in ENUMS:
        return ENUMS[name][value]
    if isinstance(value, (tuple, list)):
        return Color(*value)
    return value


def check_style(style, model, what):
    for name, value in model.items():
        got = getattr(style, name)
        if name in ENUMS:
            ok = got is ENUMS[name][value]
        elif name.endswith('color'):
            if value is None:
                ok = got is None
            else:
                expected = Color(*value) if isinstance(value, (tuple, list)) else (Color(value) if value.startswith('#') else Colors[value])
                ok = isinstance(got, Color) and got == expected
        elif name == 'line_width':
            ok = got == value and style.line_width_as_float == float(value)
        else:
            ok = got == value
        ensure(ok, '{}: {} is {!r} instead of {!r}', what, name, got, value)


@check.facet(st.tuples(st.booleans(), st.lists(setting, max_size=6), st.lists(st.one_of(setting, setting, st.just(('clone', None)), st.just(('defaults', None))), max_size=10)), quick=1200)
def styles(case):
    bezier, arguments, history = case
    names = set(DEFAULTS) if bezier else set(DEFAULTS) - {'show_control', 'control_color'}
    cls = GraphicBezierStyle if bezier else GraphicPathStyle
    arguments = {name: value for name, value in arguments if name in names}
    style = cls(**{name: argument(name, value) for name, value in arguments.items()})
    model = {name: DEFAULTS[name] for name in names}
    model.update(arguments)
    check_style(style, model, 'constructor')
    frozen = []
    for name, value in history:
        if name == 'clone':
            frozen.append((style, dict(model)))
            style = style.clone()
            ensure(type(style) is cls, 'class of a clone {}', type(style))
        elif name == 'defaults':
            check_style(cls(), {n: DEFAULTS[n] for n in names}, 'default style')
        elif name in names:
            setattr(style, name, argument(name, value))
            model[name] = value
        check_style(style, model, name)
    for s, m in frozen:
        check_style(s, m, 'source of a clone')
    return None if len(arguments) + len(history) < 2 else ('clone' if frozen else 'style')
