"""Independent model of the SVG path data and of the SVG transform lists: rendering of the commands of :mod:`pbt.paths` as text, and a reader of the grammar

A drawing is ``(start, commands)`` as in :mod:`pbt.paths`.
"""

import math
import re

from hypothesis import strategies as st

from . import num, paths

SIZES = dict(m=2, l=2, h=1, v=1, c=6, s=4, q=4, t=2, a=7, z=0)


def to_letters(drawing, closed=False):
    """List of (letter, args) of a drawing, args are floats"""
    start, commands = drawing
    out = [('M', list(start))]
    current, previous = start, None
    for command in commands:
        kind, rest = command[0], command[1:]
        piece = paths.interpret(command, current, previous)
        if kind == 'line':
            letter, args = ('l', 'L')[rest[1]], list(rest[0])
        elif kind in ('horizontal', 'vertical'):
            letter = kind[0].upper() if rest[1] else kind[0]
            args = [rest[0]]
        elif kind in ('absolute_horizontal', 'absolute_vertical'):
            letter, args = kind[9].upper(), [rest[0]]
        elif kind == 'direction':
            letter, args = 'l', list(num.mul(paths.DIRECTIONS[rest[0]], rest[1]))
        elif kind == 'arc':
            point, rx, ry, angle, large, sweep, absolute = rest
            letter, args = ('a', 'A')[absolute], [rx, ry, angle, int(large), int(sweep)] + list(point)
        else:
            letter = dict(quadratic='q', cubic='c', stringed_quadratic='t', stringed_cubic='s')[kind]
            letter = letter.upper() if rest[-1] else letter
            args = [x for p in rest[:-1] for x in p]
        out.append((letter, args))
        current, previous = piece[1][-1], piece
    if closed:
        out.append(('Z', []))
    return out


def number_forms(x):
    """Texts that denote exactly the number"""
    r = repr(float(x))
    forms = [r, r, '{:.17g}'.format(x), '{:e}'.format(x), '{:.16E}'.format(x)]
    if r.endswith('.0'):
        forms += [r[:-2], r[:-2], r[:-1]]
    if r.startswith('0.'):
        forms += [r[1:], r[1:]]
    if r.startswith('-0.'):
        forms += ['-' + r[2:]]
    if not r.startswith('-'):
        forms += ['+' + f for f in forms]
    return [f for f in forms if float(f) == x]


@st.composite
def render(draw, letters, compact=None):
    """Text of a list of (letter, args), by any of the ways of the grammar"""
    if compact is None:
        compact = draw(st.booleans())
    text = draw(st.sampled_from(['', '', ' ', '\n  ']))
    implied = None
    for letter, args in letters:
        # arguments of a repeated command follow those of the previous one
        repeated = letter == implied and draw(st.integers(0, 3)) > 0
        tokens = [] if repeated else [letter.swapcase() if letter in 'zZ' and draw(st.booleans()) else letter]
        for i, x in enumerate(args):
            if letter in 'aA' and i in (3, 4):
                tokens.append('{}'.format(int(x)))
            else:
                tokens.append(draw(st.sampled_from(number_forms(x))))
        for i, token in enumerate(tokens):
            flag = letter in 'aA' and (i - (0 if repeated else 1)) in (4, 5)
            after_number = text[-1:].isdigit() or text[-1:] == '.'
            glued = not text or token.isalpha() or not after_number or token[0] in '+-'
            # nothing is needed after a flag
            glued = glued or (flag and i - (0 if repeated else 1) in (4, 5))
            if not glued and token[0] == '.' and re.search(r'(\.\d*|[eE][+-]?\d+)$', text):
                glued = True
            separators = [' ', ' ', ',', ', ', '\n', ' , ', '\t']
            if token.isalpha() or text[-1:].isalpha() or not text:
                separators = ['', ' ', '\n', '  ']
            if glued and (compact or draw(st.booleans())):
                text += token
            else:
                text += draw(st.sampled_from(separators)) + token
        implied = dict(m='l', M='L').get(letter, letter) if letter not in 'zZ' else None
    return text + draw(st.sampled_from(['', '', ' ', '\n']))


_TOKEN = re.compile(r'([MmLlHhVvCcSsQqTtAaZz])|([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)|([\s,]+)')


def parse(text):
    """List of (letter, args) of a path data without compact flags"""
    out, position, numbers, letter = [], 0, [], None
    tokens = []
    while position < len(text):
        match = _TOKEN.match(text, position)
        assert match, text[position:]
        if match.group(1):
            tokens.append(match.group(1))
        elif match.group(2):
            tokens.append(float(match.group(2)))
        position = match.end()
    for token in tokens:
        if isinstance(token, str):
            assert not numbers
            letter = token
            if letter in 'zZ':
                out.append((letter, []))
        else:
            numbers.append(token)
            if len(numbers) == SIZES[letter.lower()]:
                out.append((letter, numbers))
                numbers = []
                letter = dict(m='l', M='L').get(letter, letter)
    assert not numbers
    return out


def to_pieces(letters):
    """Pieces, as in :mod:`pbt.paths`, of a single subpath; the closing one is a segment"""
    pieces, current, start, previous = [], None, None, None
    for letter, args in letters:
        lower, absolute = letter.lower(), letter.isupper()
        points = [tuple(args[i:i + 2]) for i in range(0, len(args) - 1, 2)]
        if lower == 'm':
            assert current is None
            current = start = points[0]
            continue
        if lower == 'z':
            piece = ('segment', [current, start])
        else:
            if lower == 'l':
                command = ('line', points[0], absolute)
            elif lower in 'hv':
                command = ({'h': 'horizontal', 'v': 'vertical'}[lower], args[0], absolute)
            elif lower == 'a':
                command = ('arc', tuple(args[5:]), args[0], args[1], args[2], bool(args[3]), bool(args[4]), absolute)
            else:
                command = ({'c': 'cubic', 's': 'stringed_cubic', 'q': 'quadratic', 't': 'stringed_quadratic'}[lower],) + tuple(points) + (absolute,)
            piece = paths.interpret(command, current, previous)
        pieces.append(piece)
        current, previous = piece[1][-1], piece
    return pieces


# -- transforms ----------------------------------------------------------------------------------------------------
# (a, b, c, d, e, f) is the matrix [[a c e] [b d f] [0 0 1]]

IDENTITY = (1., 0., 0., 1., 0., 0.)


def compose(m, n):
    """First n, then m"""
    a, b, c, d, e, f = m
    a2, b2, c2, d2, e2, f2 = n
    return (a * a2 + c * b2, b * a2 + d * b2, a * c2 + c * d2, b * c2 + d * d2, a * e2 + c * f2 + e, b * e2 + d * f2 + f)


def matrix_of(name, values):
    v = list(values)
    if name == 'matrix':
        return tuple(v)
    if name == 'translate':
        return (1., 0., 0., 1., v[0], v[1] if len(v) > 1 else 0.)
    if name == 'scale':
        return (v[0], 0., 0., v[1] if len(v) > 1 else v[0], 0., 0.)
    t = math.radians(v[0])
    if name == 'rotate':
        m = (math.cos(t), math.sin(t), -math.sin(t), math.cos(t), 0., 0.)
        if len(v) == 3:
            m = compose(compose((1., 0., 0., 1., v[1], v[2]), m), (1., 0., 0., 1., -v[1], -v[2]))
        return m
    if name == 'skewX':
        return (1., 0., math.tan(t), 1., 0., 0.)
    if name == 'skewY':
        return (1., math.tan(t), 0., 1., 0., 0.)
    raise ValueError(name)


def matrix_of_list(transforms):
    m = IDENTITY
    for name, values in transforms:
        m = compose(m, matrix_of(name, values))
    return m


def patro_matrix(transformation):
    """The same of a transformation of the library"""
    l = [float(x) for x in transformation.to_list()]
    return (l[0], l[3], l[1], l[4], l[2], l[5])


_value = st.one_of(st.integers(-9, 9).map(float), st.integers(-5000, 5000).map(lambda i: i / 100))
_factor = st.sampled_from([1., 2., .5, -1., 3., -2., .25, 1.5, -.1])
_angle = st.one_of(st.integers(-24, 24).map(lambda i: i * 15.), st.integers(-3600, 3600).map(lambda i: i / 10))
_skew = st.integers(-700, 700).map(lambda i: i / 10)
transform = st.one_of(
    st.tuples(st.just('matrix'), st.tuples(_factor, _factor, _value, _factor, _value, _value)),
    st.tuples(st.just('matrix'), st.tuples(_factor, st.just(0.), st.just(0.), _factor, _value, _value)),
    st.tuples(st.just('translate'), st.one_of(st.tuples(_value), st.tuples(_value, _value))),
    st.tuples(st.just('scale'), st.one_of(st.tuples(_factor), st.tuples(_factor, _factor))),
    st.tuples(st.just('rotate'), st.one_of(st.tuples(_angle), st.tuples(_angle, _value, _value))),
    st.tuples(st.just('skewX'), st.tuples(_skew)),
    st.tuples(st.just('skewY'), st.tuples(_skew)),
)


@st.composite
def render_transforms(draw, transforms):
    text = draw(st.sampled_from(['', '', ' ', '\n']))
    for i, (name, values) in enumerate(transforms):
        if i:
            text += draw(st.sampled_from([' ', ' ', '', ',', ', ', '\n', '  ']))
        text += name + draw(st.sampled_from(['', '', ' '])) + '(' + draw(st.sampled_from(['', '', ' ']))
        for j, value in enumerate(values):
            if j:
                text += draw(st.sampled_from([' ', ',', ', ', ' , ', '\n']))
            text += draw(st.sampled_from(number_forms(value)))
        text += draw(st.sampled_from(['', '', ' '])) + ')'
    return text + draw(st.sampled_from(['', '', ' ', '\n']))
