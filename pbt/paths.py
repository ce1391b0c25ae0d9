"""Model of the paths: commands are plain data, interpreted into pieces independently of the code under test

A path is ``(start, commands)``, a command is a tuple:

- ('line', point, absolute, radius)
- ('horizontal', length or x, absolute, radius), ('vertical', length or y, absolute, radius)
- ('absolute_horizontal', x, radius), ('absolute_vertical', y, radius)
- ('direction', name, length, radius)
- ('quadratic', point, point, absolute), ('cubic', point, point, point, absolute)
- ('stringed_quadratic', point, absolute), ('stringed_cubic', point, point, absolute)
- ('arc', point, rx, ry, angle, large, sweep, absolute)

A piece is (kind, points) or ('arc', points, rx, ry, angle, large, sweep) with absolute points.
"""

import math

from hypothesis import strategies as st

from . import gen, num
from .num import add, sub, mul

DIRECTIONS = {
    'east': (1., 0.), 'north': (0., 1.), 'west': (-1., 0.), 'south': (0., -1.),
    'north_east': (math.sqrt(.5), math.sqrt(.5)), 'north_west': (-math.sqrt(.5), math.sqrt(.5)),
    'south_east': (math.sqrt(.5), -math.sqrt(.5)), 'south_west': (-math.sqrt(.5), -math.sqrt(.5)),
}

LINEAR = ('line', 'horizontal', 'vertical', 'absolute_horizontal', 'absolute_vertical', 'direction')


def interpret(command, current, previous=None):
    """The piece drawn by a command at the point *current* after the piece *previous*"""
    kind = command[0]
    if kind == 'line':
        return ('segment', [current, command[1] if command[2] else add(current, command[1])])
    if kind == 'horizontal':
        return ('segment', [current, (command[1] if command[2] else current[0] + command[1], current[1])])
    if kind == 'vertical':
        return ('segment', [current, (current[0], command[1] if command[2] else current[1] + command[1])])
    if kind == 'absolute_horizontal':
        return ('segment', [current, (command[1], current[1])])
    if kind == 'absolute_vertical':
        return ('segment', [current, (current[0], command[1])])
    if kind == 'direction':
        return ('segment', [current, add(current, mul(DIRECTIONS[command[1]], command[2]))])
    if kind == 'arc':
        _, point, rx, ry, angle, large, sweep, absolute = command
        stop = point if absolute else add(current, point)
        return ('arc', [current, stop], rx, ry, angle, large, sweep)
    absolute = command[-1]
    points = [p if absolute else add(current, p) for p in command[1:-1]]
    if kind == 'quadratic':
        return ('quadratic', [current] + points)
    if kind == 'cubic':
        return ('cubic', [current] + points)
    base = kind.split('_')[1]
    if previous is not None and previous[0] == base:
        control = sub(mul(current, 2), previous[1][-2])
    else:
        control = current
    return (base, [current, control] + points)


def pieces(path, closed=False):
    start, commands = path
    current, previous, out = start, None, []
    for command in commands:
        previous = interpret(command, current, previous)
        out.append(previous)
        current = previous[1][-1]
    if closed:
        out.append(('segment', [current, start]))
    return out


def casteljau(points, t):
    points = list(points)
    while len(points) > 1:
        points = [num.lerp(p, q, t) for p, q in zip(points, points[1:])]
    return points[0]


def arc_frame(p1, p2, rx, ry, phi, large, sweep):
    """Centre parametrisation of an SVG arc (appendix F.6.5): centre, radii, first angle, signed span; None for a straight line"""
    if rx == 0 or ry == 0 or p1 == p2:
        return None
    rx, ry = abs(rx), abs(ry)
    c, s = math.cos(math.radians(phi)), math.sin(math.radians(phi))
    hx, hy = (p1[0] - p2[0]) / 2, (p1[1] - p2[1]) / 2
    x, y = c * hx + s * hy, -s * hx + c * hy
    # in the frame of the unit circle
    u, v = x / rx, y / ry
    scale = u * u + v * v
    if scale >= 1:
        k = math.sqrt(scale)
        rx, ry, u, v = rx * k, ry * k, u / k, v / k
        height = 0.
    else:
        height = math.sqrt((1 - scale) / scale)
    if large == sweep:
        height = -height
    cu, cv = height * v, -height * u
    a1 = math.atan2(v - cv, u - cu)
    a2 = math.atan2(-v - cv, -u - cu)
    span = (a2 - a1) % (2 * math.pi)
    if not sweep and span > 0:
        span -= 2 * math.pi
    cx, cy = cu * rx, cv * ry
    centre = (c * cx - s * cy + (p1[0] + p2[0]) / 2, s * cx + c * cy + (p1[1] + p2[1]) / 2)
    return centre, rx, ry, a1, span


def sample(piece, t):
    """The point of a piece at the fraction t of its parameters"""
    if piece[0] != 'arc':
        return casteljau(piece[1], t)
    (p1, p2), rx, ry, phi, large, sweep = piece[1:]
    frame = arc_frame(p1, p2, rx, ry, phi, large, sweep)
    if frame is None:
        return num.lerp(p1, p2, t)
    (cx, cy), rx, ry, a, span = frame
    a += t * span
    c, s = math.cos(math.radians(phi)), math.sin(math.radians(phi))
    x, y = rx * math.cos(a), ry * math.sin(a)
    return (cx + c * x - s * y, cy + s * x + c * y)


def sample_geometry(geometry, t):
    """The same on a geometry of the code under test"""
    name = type(geometry).__name__
    if name == 'Segment2D':
        return num.lerp(num.xy(geometry.start_point), num.xy(geometry.end_point), t)
    if name in ('Ellipse2D', 'Circle2D'):
        domain = geometry.domain
        return num.xy(geometry.point_at_angle(domain.start + t * (domain.stop - domain.start)))
    return casteljau([num.xy(p) for p in geometry.points], t)


# -- generation ----------------------------------------------------------------------------------------------------

_offset = st.one_of(gen.point_lattice, gen.point_tame.map(lambda p: (p[0] / 10, p[1] / 10)))
_length = st.one_of(st.integers(-20, 20).map(float), st.integers(-20000, 20000).map(lambda i: i / 1000))

ALL = ('line', 'line', 'horizontal', 'vertical', 'absolute_horizontal', 'absolute_vertical', 'direction', 'direction',
       'quadratic', 'cubic', 'stringed_quadratic', 'stringed_cubic', 'arc', 'arc')


@st.composite
def arc(draw, current):
    """The chord is not close to the diameter of the ellipse in its direction"""
    offset = draw(_offset)
    phi = draw(gen.angle)
    if draw(st.integers(0, 9)) == 0:
        rx, ry = draw(st.sampled_from([(0., 1.), (2., 0.), (0., 0.)]))
    else:
        ratio = draw(st.sampled_from([1., .5, 2., .2, 4., 1.25]))
        c, s = math.cos(math.radians(phi)), math.sin(math.radians(phi))
        x, y = (c * offset[0] + s * offset[1]) / 2, (-s * offset[0] + c * offset[1]) / 2
        half = math.hypot(x / ratio, y)
        if half < 1e-2:
            half = 1
        ry = half * draw(st.sampled_from([.2, .5, .9, 1.1, 1.5, 2., 5., 20.]))
        rx = ry * ratio
    absolute = draw(st.booleans())
    point = add(current, offset) if absolute else offset
    return ('arc', point, rx, ry, phi, draw(st.booleans()), draw(st.booleans()), absolute)


@st.composite
def command(draw, current, kinds=ALL):
    kind = draw(st.sampled_from(kinds))
    if kind == 'arc':
        return draw(arc(current))
    absolute = draw(st.booleans())
    if kind in ('horizontal', 'vertical'):
        return (kind, draw(_length), absolute, None)
    if kind in ('absolute_horizontal', 'absolute_vertical'):
        return (kind, draw(_length), None)
    if kind == 'direction':
        return (kind, draw(st.sampled_from(sorted(DIRECTIONS))), draw(_length), None)
    count = {'line': 1, 'quadratic': 2, 'cubic': 3, 'stringed_quadratic': 1, 'stringed_cubic': 2}[kind]
    points = tuple(add(current, draw(_offset)) if absolute else draw(_offset) for _ in range(count))
    if kind == 'line':
        return (kind, points[0], absolute, None)
    return (kind,) + points + (absolute,)


@st.composite
def paths(draw, minimum=1, maximum=8, kinds=ALL):
    start = draw(gen.point_tame.map(lambda p: (p[0] / 10, p[1] / 10)))
    current, previous, commands = start, None, []
    for _ in range(draw(st.integers(minimum, maximum))):
        c = draw(command(current, kinds))
        commands.append(c)
        previous = interpret(c, current, previous)
        current = previous[1][-1]
    return start, commands


# -- construction ----------------------------------------------------------------------------------------------------

def V(p):
    from Patro.GeometryEngine.Vector import Vector2D
    return Vector2D(p)


def execute(path, command):
    """Run a command on a path of the code under test"""
    kind = command[0]
    if kind == 'line':
        return path.line_to(V(command[1]), radius=command[3], absolute=command[2])
    if kind in ('horizontal', 'vertical'):
        return getattr(path, kind + '_to')(command[1], radius=command[3], absolute=command[2])
    if kind in ('absolute_horizontal', 'absolute_vertical'):
        return getattr(path, kind + '_to')(command[1], radius=command[2])
    if kind == 'direction':
        return getattr(path, command[1] + '_to')(command[2], radius=command[3])
    if kind == 'arc':
        return path.arc_to(V(command[1]), *command[2:7], absolute=command[7])
    return getattr(path, kind + '_to')(*map(V, command[1:-1]), absolute=command[-1])


def build(path):
    from Patro.GeometryEngine.Path import Path2D
    start, commands = path
    obj = Path2D(V(start))
    for c in commands:
        execute(obj, c)
    return obj
