"""P16 — Path building: each command draws the piece its definition says"""

import math

from hypothesis import strategies as st

from Patro.GeometryEngine.Path import LinearSegment, Path2D

from pbt import gen, num, paths
from pbt.harness import Check, ensure, fail
from pbt.num import ensure_point, xy

check = Check(
    'P16',
    rule='Hypothesis generates histories of drawing commands (straight, directional, axis, quadratic, cubic, smooth and elliptical pieces, absolute and '
         'relative), closings and edits of the parts.  The oracle is an interpreter of the commands on pairs of floats, with the parametrisation of arcs of the SVG '
         'standard.  A case is non-trivial when at least two commands of different kinds are executed.',
    assumptions=['coordinates up to 1e3', 'chords of arcs are at least 10 % away from the diameter of the ellipse', 'at most 1000 parts'],
)

KIND = {'segment': 'Segment2D', 'quadratic': 'QuadraticBezier2D', 'cubic': 'CubicBezier2D'}


def scale_of(pieces):
    scale = 1.
    for piece in pieces:
        scale = max(scale, num.magnitude_of(*piece[1]))
        if piece[0] == 'arc':
            frame = paths.arc_frame(*piece[1], *piece[2:])
            if frame:
                scale = max(scale, frame[1], frame[2], num.magnitude_of(frame[0]))
    return scale


def check_piece(part, piece, scale, what):
    start, stop = piece[1][0], piece[1][-1]
    ensure_point(part.start_point, start, 'start of {}', what, scale=scale)
    ensure_point(part.stop_point, stop, 'stop of {}', what, scale=scale)
    geometry = part.geometry
    if piece[0] == 'arc':
        # rounding decides whether the relative end point is the start point
        degenerate = paths.arc_frame(*piece[1], *piece[2:]) is None
        if degenerate or num.dist(start, stop) < 1e-3:
            if piece[2] == 0 or piece[3] == 0:
                ensure(type(geometry).__name__ == 'Segment2D', 'an arc of null radius is a segment: {}', what)
            return
        ensure(type(geometry).__name__ == 'Ellipse2D', 'geometry {} of {}', type(geometry).__name__, what)
        tolerance = dict(rtol=1e-6, atol=1e-6)
    else:
        ensure(type(geometry).__name__ == KIND[piece[0]], 'geometry {} of {}', type(geometry).__name__, what)
        tolerance = {}
        points = [xy(p) for p in geometry.points]
        ensure(len(points) == len(piece[1]) and all(num.pclose(p, q, scale) for p, q in zip(points, piece[1])),
               'control points {} of {}, expected {}', points, what, piece[1])
        points = [xy(p) for p in part.points]
        ensure(len(points) == len(piece[1]) and all(num.pclose(p, q, scale) for p, q in zip(points, piece[1])),
               'points {} of {}, expected {}', points, what, piece[1])
    for t in (0., .25, .5, .8, 1.):
        p, q = paths.sample_geometry(geometry, t), paths.sample(piece, t)
        ensure(num.pclose(p, q, scale, **tolerance), '{} passes by {} instead of {} at {}', what, p, q, t)


def check_path(path, pieces, start, closed):
    scale = scale_of(pieces)
    ensure(len(path) == len(pieces) and len(list(path)) == len(pieces), 'number of parts {}, expected {}', len(path), len(pieces))
    ensure(path.is_closed == closed, 'closed')
    ensure_point(path.p0, start, 'start of the path', scale=scale)
    box = None
    for i, (part, piece) in enumerate(zip(path, pieces)):
        ensure(part.index == i and part.path is path and path[i] is part, 'index of the part {}', i)
        check_piece(part, piece, scale, 'part {} {}'.format(i, piece))
        b = part.bounding_box
        b = (b.x.inf, b.x.sup, b.y.inf, b.y.sup)
        box = b if box is None else (min(box[0], b[0]), max(box[1], b[1]), min(box[2], b[2]), max(box[3], b[3]))
    if pieces:
        b = path.bounding_box
        b = (b.x.inf, b.x.sup, b.y.inf, b.y.sup)
        ensure(all(num.close(x, y, scale) for x, y in zip(b, box)), 'bounding box {} of the path, expected {}', b, box)
        for piece in pieces:
            for t in (0., .2, .4, .6, .8, 1.):
                x, y = paths.sample(piece, t)
                e = 1e-6 * scale
                ensure(b[0] - e <= x <= b[1] + e and b[2] - e <= y <= b[3] + e, 'the path goes out of its bounding box {} at {}', b, (x, y))
        ensure(path.start_segment is path[0] and path.stop_segment is path[len(path) - 1], 'first and last parts')
    ensure(path[len(pieces)] is None and path[-1] is None, 'no part after the end')


def label_of(commands):
    kinds = sorted({c[0] for c in commands})
    return None if len(kinds) < 2 else ('arc' if 'arc' in kinds else ('smooth' if any('stringed' in k for k in kinds) else 'other'))


@check.facet(st.tuples(paths.paths(), st.booleans()), quick=3000)
def building(case):
    path, closed = case
    start, commands = path
    origin = paths.V(start)
    obj = Path2D(origin)
    origin.x += 100
    for i, command in enumerate(commands):
        part = paths.execute(obj, command)
        ensure(part is not None and obj[i] is part, 'the command returns its part')
    pieces = paths.pieces(path)
    check_path(obj, pieces, start, False)
    if closed:
        part = obj.close()
        ensure(part is obj[len(commands)], 'closing returns its part')
        pieces = paths.pieces(path, closed=True)
        check_path(obj, pieces, start, True)
        # a closed path is complete
        for command in commands:
            ensure(paths.execute(obj, command) is None, 'a part was added to a closed path')
        check_path(obj, pieces, start, True)
    repr(obj)
    return label_of(commands)


edit = st.tuples(st.integers(0, 30), gen.point_lattice)


@check.facet(st.tuples(paths.paths(2, 6), st.lists(edit, min_size=1, max_size=4), gen.point_lattice, st.booleans()), quick=2000)
def editing(case):
    """Parts, and the start point, are changed after the construction"""
    (start, commands), edits, origin, moves = case
    commands = list(commands)
    obj = paths.build((start, commands))
    check_path(obj, paths.pieces((start, commands)), start, False)
    done = 0
    for index, value in edits:
        index %= len(commands)
        command = commands[index]
        part = obj[index]
        kind = command[0]
        if kind in ('line', 'arc', 'stringed_quadratic'):
            if kind == 'arc':
                continue
            part.point = paths.V(value)
            commands[index] = (kind, value) + tuple(command[2:])
        elif kind in ('horizontal', 'vertical') and not command[2]:
            part.length = value[0]
            commands[index] = (kind, value[0]) + tuple(command[2:])
        elif kind in ('horizontal', 'absolute_horizontal'):
            part.x = value[0]
            commands[index] = (kind, value[0]) + tuple(command[2:])
        elif kind in ('vertical', 'absolute_vertical'):
            part.y = value[1]
            commands[index] = (kind, value[1]) + tuple(command[2:])
        elif kind == 'direction':
            part.length = value[0]
            commands[index] = (kind, command[1], value[0]) + tuple(command[3:])
        elif kind == 'quadratic':
            part.point1 = paths.V(value)
            commands[index] = (kind, value) + tuple(command[2:])
        elif kind == 'cubic':
            part.point3 = paths.V(value)
            commands[index] = tuple(command[:3]) + (value,) + tuple(command[4:])
        else:
            continue
        done += 1
        if any(c[0] == 'arc' for c in commands):
            # the chords of absolute arcs have changed: radii may be ill-conditioned
            for i, (part, piece) in enumerate(zip(obj, paths.pieces((start, commands)))):
                scale = scale_of([piece])
                ensure_point(part.start_point, piece[1][0], 'start of the part {}', i, scale=scale)
                ensure_point(part.stop_point, piece[1][-1], 'stop of the part {}', i, scale=scale)
        else:
            check_path(obj, paths.pieces((start, commands)), start, False)
    if moves:
        obj.move_to(paths.V(origin))
        start = origin
        for i, (part, piece) in enumerate(zip(obj, paths.pieces((start, commands)))):
            scale = scale_of([piece])
            ensure_point(part.start_point, piece[1][0], 'start of the part {}', i, scale=scale)
            ensure_point(part.stop_point, piece[1][-1], 'stop of the part {}', i, scale=scale)
    return label_of(commands) if done else None


@check.facet(st.tuples(paths.paths(0, 5), gen.positive, st.sampled_from(['quadratic', 'cubic', 'arc', 'start'])), quick=600)
def rejections(case):
    """A corner needs two straight parts"""
    (start, commands), radius, kind = case
    if kind == 'start':
        commands = []
    elif kind == 'arc':
        commands = commands + [('arc', (3., 4.), 5., 6., 0., False, True, False)]
    else:
        commands = commands + [(kind,) + ((1., 2.), (3., 1.), (5., -2.))[:2 if kind == 'quadratic' else 3] + (False,)]
    obj = paths.build((start, commands))
    for command in (('line', (1., 5.), False, radius), ('horizontal', 3., False, radius), ('vertical', 3., True, radius), ('direction', 'north_east', 2., radius)):
        try:
            paths.execute(obj, command)
        except ValueError:
            check_path(obj, paths.pieces((start, commands)), start, False)
            continue
        fail('{} with a radius after a part that is not straight was accepted', command)
    return kind


@check.facet(st.tuples(st.lists(st.tuples(st.sampled_from(sorted(paths.DIRECTIONS)), st.integers(-50, 50)), min_size=20, max_size=50), st.booleans(), st.sampled_from([1, 2, 20])), quick=40)
def walks(case):
    """Long relative walks come back to the start when they are undone"""
    steps, closed, repeat = case
    steps = steps * repeat
    commands = [('direction', name, float(n), None) for name, n in steps]
    obj = paths.build(((1., -2.), commands))
    x, y = 1., -2.
    for name, n in steps:
        d = paths.DIRECTIONS[name]
        x, y = x + n * d[0], y + n * d[1]
    ensure_point(obj.stop_segment.stop_point, (x, y), 'end of the walk', scale=50000)
    if closed:
        obj.close()
        ensure_point(obj.stop_segment.stop_point, (1., -2.), 'end of the closed walk')
        ensure_point(obj.stop_segment.start_point, (x, y), 'start of the closing part', scale=50000)
    return 'walk'


CURVES = tuple(kind for kind in paths.ALL if kind != 'arc')


@check.facet(st.tuples(paths.paths(1, 4, CURVES), st.booleans(), st.lists(st.tuples(st.integers(0, 4), st.integers(0, 8), gen.point_lattice, st.sampled_from([0., .01, .3, 1., 5.])), min_size=1, max_size=4)), quick=400)
def distances(case):
    """Distance of points to the path, versus its samples"""
    data, closed, queries = case
    obj = paths.build(data)
    if closed:
        obj.close()
    pieces = paths.pieces(data, closed=closed)
    scale = scale_of(pieces)
    label = None
    for i, t, offset, factor in queries:
        p = num.add(paths.sample(pieces[i % len(pieces)], t / 8), num.mul(offset, factor))
        upper, lower = math.inf, math.inf
        for kind, points in pieces:
            if kind == 'segment':
                d = num.distance_to_segment(p, *points)
                low = d
            else:
                # the speed of the curve is at most the degree times the longest side of its polygon
                n, samples = len(points) - 1, 400
                speed = n * max(num.dist(a, b) for a, b in zip(points, points[1:]))
                d = min(num.dist(p, paths.casteljau(points, k / samples)) for k in range(samples + 1))
                low = d - speed / samples / 2
            if d < upper and kind != 'segment':
                label = 'curve'
            upper, lower = min(upper, d), min(lower, low)
        got = obj.distance_to_point(paths.V(p))
        e = 1e-6 * scale
        ensure(lower - e <= got <= upper + e, 'distance of {} to the path {}: {} is not in [{}, {}]', p, pieces, got, lower, upper)
    return label
