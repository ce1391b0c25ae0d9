"""P17 — Transforming or cloning a path"""

import math

import numpy as np
from hypothesis import strategies as st

from Patro.GeometryEngine.Path import LinearSegment, Path2D
from Patro.GeometryEngine.Transformation import AffineTransformation2D, Transformation2D

from pbt import gen, num, paths
from pbt.harness import Check, ensure, fail
from pbt.num import ensure_point, xy

check = Check(
    'P17',
    rule='Hypothesis generates paths of all the commands, with rounded corners and rounded closings, and sequences of transformations and clones, in place or not.  The oracle is '
         'the image of points sampled on the pieces of an independent interpreter of the commands, or on the original for the rounded corners.  A case is '
         'non-trivial when the path has at least two parts and a transformation is not the identity.',
    assumptions=['invertible transformations with a condition number at most 100', 'rounded corners are transformed by similarities built by the constructors', 'coordinates up to 1e3'],
)


# -- transformations: plain data, model (matrix, translation) and object ----------------------------------------------

similarity = st.one_of(
    st.tuples(st.just('rotation'), gen.angle),
    st.tuples(st.just('scale'), st.one_of(st.sampled_from([2., .5, -2., 1.5]), st.integers(200, 5000).map(lambda i: i / 1000))),
    st.tuples(st.sampled_from(['x_mirror', 'y_mirror', 'mirror', 'identity'])),
    st.tuples(st.just('translation'), gen.point_lattice),
    st.tuples(st.just('rotation_at'), gen.point_lattice, gen.angle),
)


@st.composite
def matrices(draw):
    """Rotation, stretch with a bounded condition number, rotation"""
    a, b = draw(gen.angle), draw(gen.angle)
    s1, s2 = draw(st.sampled_from([(1., 2.), (.5, .5), (3., 1.), (1., -1.), (2., -.5), (1., 1.), (-1., -2.), (.2, 1.)]))
    ca, sa, cb, sb = math.cos(math.radians(a)), math.sin(math.radians(a)), math.cos(math.radians(b)), math.sin(math.radians(b))
    return (ca * s1 * cb - sa * s2 * sb, -ca * s1 * sb - sa * s2 * cb, sa * s1 * cb + ca * s2 * sb, -sa * s1 * sb + ca * s2 * cb)


general = st.one_of(
    similarity,
    st.tuples(st.just('scale2'), st.sampled_from([(2., 1.), (1., -3.), (.5, 2.), (-1., 2.)])),
    st.tuples(st.just('linear'), matrices()),
    st.tuples(st.just('affine'), matrices(), gen.point_lattice),
)


def model(t):
    kind = t[0]
    if kind in ('rotation', 'rotation_at'):
        a = math.radians(t[-1])
        m = (math.cos(a), -math.sin(a), math.sin(a), math.cos(a))
        if kind == 'rotation':
            return m, (0., 0.)
        c = t[1]
        return m, (c[0] - m[0] * c[0] - m[1] * c[1], c[1] - m[2] * c[0] - m[3] * c[1])
    if kind == 'scale':
        return (t[1], 0., 0., t[1]), (0., 0.)
    if kind == 'scale2':
        return (t[1][0], 0., 0., t[1][1]), (0., 0.)
    if kind == 'translation':
        return (1., 0., 0., 1.), t[1]
    if kind == 'linear':
        return t[1], (0., 0.)
    if kind == 'affine':
        return t[1], t[2]
    return {'x_mirror': (-1., 0., 0., 1.), 'y_mirror': (1., 0., 0., -1.), 'mirror': (-1., 0., 0., -1.), 'identity': (1., 0., 0., 1.)}[kind], (0., 0.)


def image(t, p):
    (a, b, c, d), (e, f) = model(t)
    return (a * p[0] + b * p[1] + e, c * p[0] + d * p[1] + f)


def apply(path, t, clone):
    kind = t[0]
    if kind == 'rotation':
        return path.rotate(t[1], clone=clone)
    if kind == 'scale':
        return path.scale(t[1], clone=clone)
    if kind == 'scale2':
        return path.scale(*t[1], clone=clone)
    if kind in ('x_mirror', 'y_mirror', 'mirror'):
        return getattr(path, kind)(clone=clone)
    if kind == 'translation':
        transformation = AffineTransformation2D.Translation(paths.V(t[1]))
    elif kind == 'rotation_at':
        transformation = AffineTransformation2D.RotationAt(paths.V(t[1]), t[2])
    elif kind == 'identity':
        transformation = Transformation2D.Identity()
    elif kind == 'linear':
        transformation = Transformation2D(np.array(t[1]).reshape(2, 2))
    else:
        (a, b, c, d), (e, f) = t[1], t[2]
        transformation = AffineTransformation2D(np.array([[a, b, e], [c, d, f], [0, 0, 1.]]))
    return path.transform(transformation, clone=clone)


# -- geometry of a path ------------------------------------------------------------------------------------------------

FRACTIONS = (0., .3, .5, .9, 1.)


def signature(path):
    """Everything drawn by a path, as plain data"""
    out = [path.is_closed, xy(path.p0)]
    for part in path:
        geometry = part.geometry
        values = [type(geometry).__name__, xy(part.start_point), xy(part.stop_point)]
        values.append([paths.sample_geometry(geometry, t) for t in FRACTIONS])
        if isinstance(part, LinearSegment) and part.radius is not None:
            arc = part.bulge_geometry
            values.append((part.radius, xy(part.bulge_center), xy(part.bulge_start_point), xy(part.bulge_stop_point), arc.domain.start, arc.domain.stop))
        out.append(values)
    return out


def scale_of(points):
    return max(1., num.magnitude_of(*points))


operation = st.tuples(general, st.booleans())


@check.facet(st.tuples(paths.paths(1, 6), st.booleans(), st.lists(operation, min_size=1, max_size=3)), quick=2500)
def transformations(case):
    data, closed, operations = case
    obj = paths.build(data)
    if closed:
        obj.close()
    pieces = paths.pieces(data, closed)
    tolerance = 1e-6
    # an arc between two points that coincide up to rounding is undefined
    pieces_defined = [not (piece[0] == 'arc' and num.dist(*piece[1]) < 1e-2) for piece in pieces]
    samples = [[paths.sample(piece, t) for t in FRACTIONS] for piece in pieces]
    ends = [(piece[1][0], piece[1][-1]) for piece in pieces]
    for t, clone in operations:
        before = signature(obj)
        new = apply(obj, t, clone)
        if clone:
            ensure(new is not obj, 'a clone is expected')
            ensure(signature(obj) == before, 'the original has changed by {}', t)
        else:
            ensure(new is obj, 'the transformation is in place')
        ensure(type(new) is Path2D and len(new) == len(pieces) and new.is_closed == closed, 'class, size and closure')
        samples = [[image(t, p) for p in points] for points in samples]
        ends = [(image(t, p), image(t, q)) for p, q in ends]
        scale = scale_of([p for points in samples for p in points] + [p for e in ends for p in e])
        ensure_point(new.p0, ends[0][0], 'start of the path', scale=scale)
        for i, part in enumerate(new):
            ensure(part.path is new and part.index == i, 'the part {} belongs to another path', i)
            ensure_point(part.start_point, ends[i][0], 'start of the part {} {} after {}', i, pieces[i], t, scale=scale)
            ensure_point(part.stop_point, ends[i][1], 'stop of the part {} {} after {}', i, pieces[i], t, scale=scale)
            if not pieces_defined[i]:
                continue
            for u, p in zip(FRACTIONS, samples[i]):
                q = paths.sample_geometry(part.geometry, u)
                ensure(num.pclose(q, p, scale, rtol=tolerance, atol=tolerance), 'part {} {} passes by {} instead of {} at {} after {}', i, pieces[i], q, p, u, t)
        if clone:
            # the original does not follow the clone
            new.p0.x += 1
            new.p0.x -= 1
            for part in new:
                if hasattr(part, 'point'):
                    part.point = part.point + paths.V((3., 1.))
                    ensure(signature(obj) == before, 'the original follows its clone')
                    part.point = part.point - paths.V((3., 1.))
        obj = new
    kinds = {c[0] for c in data[1]}
    if len(pieces) < 2 or all(t[0] == 'identity' for t, _ in operations):
        return None
    return 'arc' if 'arc' in kinds else 'other'


@check.facet(st.tuples(paths.paths(0, 6), st.sampled_from([None, 'plain', 'rounded', 'half'])), quick=1200)
def clones(case):
    data, closing = case
    start, commands = data
    if closing in ('rounded', 'half'):
        commands = [('line', (7., 1.), False, None), ('direction', 'north', 6., 1.)] + [c for c in commands if c[0] in paths.LINEAR]
        data = start, commands
    obj = paths.build(data)
    if closing == 'plain':
        obj.close()
    elif closing:
        # the last corner is not rounded when the closing part is null
        obj.close(radius=.5 if closing == 'rounded' and num.dist(xy(obj.stop_segment.stop_point), start) > 1 else None, close_radius=.7)

    def public(part):
        """Public properties of the part"""
        out = []
        for name in sorted({name for cls in type(part).__mro__ for name, value in vars(cls).items() if isinstance(value, property)}):
            if name.startswith('_') or name in ('path', 'prev_part', 'next_part'):
                continue
            try:
                value = getattr(part, name)
            except Exception as exception:
                value = type(exception).__name__
            if name == 'bounding_box':
                value = str(value)
            elif isinstance(value, (list, tuple)):
                value = [xy(p) for p in value]
            elif hasattr(value, 'radius') or hasattr(value, 'radius_x'):
                domain = value.domain
                value = [xy(value.center), getattr(value, 'radius', None), domain and (domain.start, domain.stop)]
            elif hasattr(value, 'points'):
                value = [type(value).__name__] + [xy(p) for p in value.points]
            elif hasattr(value, 'x') and hasattr(value, 'y'):
                value = xy(value)
            elif not isinstance(value, (bool, int, float, str, type(None))):
                continue
            out.append((name, value))
        return out

    def plain(path):
        return repr([xy(path.p0), path.is_closed] + [(type(part).__name__, public(part)) for part in path])   # nan are equal
    before = plain(obj)
    copy = obj.clone()
    ensure(copy is not obj and type(copy) is Path2D, 'clone of the same class')
    ensure(plain(copy) == before, 'clone {}, expected {}', plain(copy), before)
    for part in copy:
        ensure(part.path is copy, 'the parts of the clone belong to the clone')
    # independence in both directions
    copy.p0.x += 5
    for part in copy:
        for name in ('point', 'point1', 'point2', 'point3', 'offset'):
            value = getattr(part, name, None)
            if hasattr(value, 'x') and hasattr(value, 'y'):
                value.x += 11
    if not copy.is_closed:
        copy.line_to(paths.V((1., 1.)))
        copy.close()
    ensure(plain(obj) == before, 'the original follows its clone')
    again = obj.clone().clone()
    ensure(plain(again) == before, 'clone of a clone')
    obj.p0.x += 5
    ensure(plain(again) == before, 'the clone follows its original')
    return None if len(obj) < 2 else (closing or 'open')


# -- rounded corners -----------------------------------------------------------------------------------------------------

@st.composite
def rounded(draw):
    """Straight commands around a convex-ish turn: corners of at least 20 degrees, radii that fit"""
    n = draw(st.integers(2, 5))
    start = draw(st.one_of(gen.point_lattice, st.just((0., 0.))))
    current = start
    commands = []
    heading = draw(st.one_of(st.integers(0, 23), st.sampled_from([0, 6, 12, 18]))) * 15
    for i in range(n):
        length = draw(st.integers(5, 12))
        a = math.radians(heading)
        offset = (length * math.cos(a), length * math.sin(a))
        radius = None if i == 0 else draw(st.sampled_from([None, .25, .5]))
        form = draw(st.sampled_from(['line', 'axis', 'absolute_axis', 'direction', 'absolute']))
        if heading % 90 == 0 and form in ('axis', 'absolute_axis'):
            axis, k = ('horizontal', 0) if heading % 180 == 0 else ('vertical', 1)
            step = length * (1 if heading < 180 else -1)
            offset = (step, 0.) if k == 0 else (0., step)
            commands.append((axis, float(step), False, radius) if form == 'axis' else ('absolute_' + axis, current[k] + step, radius))
        elif heading % 45 == 0 and form == 'direction':
            name = {0: 'east', 45: 'north_east', 90: 'north', 135: 'north_west', 180: 'west', 225: 'south_west', 270: 'south', 315: 'south_east'}[heading]
            commands.append(('direction', name, float(length), radius))
        elif form == 'absolute':
            commands.append(('line', num.add(current, offset), True, radius))
        else:
            commands.append(('line', offset, False, radius))
        current = num.add(current, offset)
        heading = (heading + draw(st.sampled_from([30, 45, 60, 90, 120, -30, -60, -90, -120]))) % 360
    return start, commands


@check.facet(st.tuples(rounded(), st.booleans(), st.booleans(), st.lists(st.tuples(similarity, st.booleans()), min_size=1, max_size=3)), quick=1500)
def corners(case):
    data, closed, looked_at, operations = case
    obj = paths.build(data)
    start = data[0]
    if closed:
        end = xy(obj.stop_segment.stop_point)
        previous = xy(obj.stop_segment.start_point)
        first = xy(obj[0].stop_point)

        def turn(a, b, c):
            u, v = num.sub(b, a), num.sub(c, b)
            return abs(math.degrees(math.atan2(num.cross(u, v), num.dot(u, v))))
        if num.dist(end, start) > 3 and 10 < turn(previous, end, start) < 150 and 10 < turn(end, start, first) < 150:
            obj.close(radius=.2, close_radius=.3)
        else:
            obj.close()

    def corner_data(path):
        out = []
        for part in path:
            if part.radius is None:
                out.append(None)
            else:
                out.append((part.radius, xy(part.bulge_center), xy(part.bulge_start_point), xy(part.bulge_stop_point)))
        return out
    if looked_at:
        obj.bounding_box
    expected = corner_data(obj)
    points = [[xy(p) for p in part.points] for part in obj]
    for t, clone in operations:
        new = apply(obj, t, clone)
        if not looked_at and clone:
            pass
        (a, b, c, d), _ = model(t)
        factor = math.sqrt(abs(a * d - b * c))
        expected = [e and (e[0] * factor,) + tuple(image(t, p) for p in e[1:]) for e in expected]
        points = [[image(t, p) for p in pair] for pair in points]
        scale = scale_of([p for pair in points for p in pair])
        got = corner_data(new)
        for i, (e, g) in enumerate(zip(expected, got)):
            ensure((e is None) == (g is None), 'rounded corner {} after {}', i, t)
            if e:
                ensure(num.close(g[0], e[0], scale, 1e-7, 1e-7), 'radius {} of the corner {} after {}, expected {}', g[0], i, t, e[0])
                for p, q, what in zip(g[1:], e[1:], ('centre', 'start', 'stop')):
                    ensure(num.pclose(p, q, scale, 1e-7, 1e-7), '{} {} of the corner {} after {}, expected {}', what, p, i, t, q)
        for i, part in enumerate(new):
            for p, q in zip(part.points, points[i]):
                ensure_point(p, q, 'straight part {} after {}', i, t, scale=scale, rtol=1e-7, atol=1e-7)
        obj = new
    return 'closed' if closed else ('rounded' if any(expected) else None)
