"""P18 — Rounded corners of paths"""

import math

from hypothesis import strategies as st

from Patro.GeometryEngine.Path import Path2D

from pbt import gen, num, paths
from pbt.harness import Check, ensure, fail
from pbt.num import add, cross, dot, ensure_point, mul, norm, sub, xy

check = Check(
    'P18',
    rule='Hypothesis generates polygonal chains of straight commands of every kind, open or closed, with radii that fit in the sides.  The oracle is elementary: the '
         'circle of the given radius in the angle of the two sides, at the distance r / tan(angle / 2) of the corner.  A case is non-trivial when at least one corner is '
         'rounded and not straight.',
    assumptions=['corners turn by at most 175 degrees, sides are longer than 1e-2', 'the cut sides at both ends of a side do not overlap'],
)


def unit(p):
    return mul(p, 1 / norm(p))


def turn_of(a, b, c):
    u, v = sub(b, a), sub(c, b)
    return math.degrees(math.atan2(cross(u, v), dot(u, v)))


def corner(a, b, c, r):
    """Start and stop of the rounding of the corner b, centre, signed span"""
    turn = turn_of(a, b, c)
    cut = r * math.tan(math.radians(abs(turn)) / 2)
    u, v = unit(sub(b, a)), unit(sub(c, b))
    start, stop = sub(b, mul(u, cut)), add(b, mul(v, cut))
    side = 1 if turn >= 0 else -1
    return start, stop, add(start, mul((-u[1], u[0]), side * r)), turn


@st.composite
def chains(draw):
    """Vertices, kind of command for each side, fraction of the largest radius for each corner, closed"""
    n = draw(st.integers(2, 7))
    vertices = [draw(gen.point_lattice)]
    kinds = []
    heading = None
    for i in range(n):
        kind = draw(st.sampled_from(['line', 'line', 'absolute', 'direction', 'horizontal', 'vertical', 'absolute_horizontal', 'absolute_vertical']))
        for _ in range(20):
            if kind in ('line', 'absolute'):
                p = draw(gen.nonzero_point(st.one_of(gen.point_lattice, gen.point_tame.map(lambda p: (p[0] / 50, p[1] / 50))), .5))
            else:
                length = draw(st.one_of(st.integers(1, 12).map(float), st.integers(500, 9000).map(lambda i: i / 1000))) * draw(st.sampled_from([1, -1]))
                if kind == 'direction':
                    name = draw(st.sampled_from(sorted(paths.DIRECTIONS)))
                    p = mul(paths.DIRECTIONS[name], length)
                elif 'horizontal' in kind:
                    p = (length, 0.)
                else:
                    p = (0., length)
            if heading is None or abs(math.degrees(math.atan2(cross(heading, p), dot(heading, p)))) < 175:
                break
        else:
            kind, p = 'line', heading
        kinds.append((kind, name, length) if kind == 'direction' else (kind,))
        vertices.append(add(vertices[-1], p))
        heading = p
    fractions = draw(st.lists(st.sampled_from([None, 0., .1, .5, .9, 1.]), min_size=n + 1, max_size=n + 1))
    return vertices, kinds, fractions, draw(st.booleans())


def radii_of(vertices, fractions, closed):
    """Radius of each vertex: corners get at most half of the shorter side"""
    n = len(vertices)
    radii = []
    for i in range(n):
        if not closed and i in (0, n - 1):
            radii.append(None)
            continue
        a, b, c = vertices[i - 1], vertices[i], vertices[(i + 1) % n]
        fraction = fractions[i]
        if fraction is None:
            radii.append(None)
            continue
        turn = abs(turn_of(a, b, c))
        room = min(norm(sub(b, a)), norm(sub(c, b))) / 2
        tangent = math.tan(math.radians(turn) / 2)
        # any radius fits in a straight corner
        radii.append(fraction * (5. if tangent < 1e-3 else min(room / tangent, 50.)))
    return radii


def build(vertices, kinds, radii, closed):
    path = Path2D(paths.V(vertices[0]))
    for i, kind in enumerate(kinds):
        p, q = vertices[i], vertices[i + 1]
        radius = radii[i] if i else None
        if kind[0] == 'line':
            path.line_to(paths.V(sub(q, p)), radius=radius)
        elif kind[0] == 'absolute':
            path.line_to(paths.V(q), radius=radius, absolute=True)
        elif kind[0] == 'direction':
            getattr(path, kind[1] + '_to')(kind[2], radius=radius)
        elif kind[0] == 'horizontal':
            path.horizontal_to(q[0] - p[0], radius=radius)
        elif kind[0] == 'vertical':
            path.vertical_to(q[1] - p[1], radius=radius)
        elif kind[0] == 'absolute_horizontal':
            path.absolute_horizontal_to(q[0], radius=radius)
        else:
            path.absolute_vertical_to(q[1], radius=radius)
    if closed:
        path.close(radius=radii[-1], close_radius=radii[0])
    return path


def check_rounding(path, vertices, radii, closed):
    """*vertices* are the corners in order, *radii* their radii or None"""
    n = len(vertices)
    scale = max(1., num.magnitude_of(*vertices)) + max([r or 0 for r in radii])
    starts, stops = list(vertices), list(vertices)
    arcs = 0
    drawn = list(vertices[:1]) if not closed else []
    for i in range(n):
        # the part which leaves the vertex i holds its corner
        if i >= len(path):
            continue
        part = path[i]
        if not radii[i]:
            ensure(part.radius is None, 'radius {} of the corner {}, none is expected', part.radius, i)
            continue
        r = radii[i]
        ensure(num.close(part.radius, r, scale), 'radius of the corner {}', i)
        start, stop, centre, turn = corner(vertices[i - 1], vertices[i], vertices[(i + 1) % n], r)
        starts[i], stops[i] = start, stop
        # conditioning of the corner
        e = dict(scale=scale, rtol=1e-6, atol=1e-6)
        ensure_point(part.bulge_start_point, start, 'start of the corner {} of {}', i, vertices, **e)
        ensure_point(part.bulge_stop_point, stop, 'stop of the corner {} of {}', i, vertices, **e)
        arc = part.bulge_geometry
        ensure(num.close(arc.radius, r, scale), 'radius of the arc')
        if abs(turn) > 1e-3:
            ensure_point(part.bulge_center, centre, 'centre of the corner {} of {}', i, vertices, **e)
            ensure_point(arc.center, centre, 'centre of the arc {} of {}', i, vertices, **e)
            arcs += 1
        # the arc turns counter-clockwise from its start angle by the turn of the sides
        span = arc.domain.stop - arc.domain.start
        span = span % 360 if not 0 <= span <= 360 else span
        ensure(abs(span - abs(turn)) < 1e-4, 'the arc of the corner {} of {} spans {} for a turn of {}', i, vertices, span, turn)
        first, last = (start, stop) if turn >= 0 else (stop, start)
        if abs(turn) > 1e-3:
            for t, q in ((0., first), (.5, None), (1., last)):
                p = xy(arc.point_at_angle(arc.domain.start + t * span))
                if q is not None:
                    ensure(num.pclose(p, q, **e), 'the arc of the corner {} passes by {} instead of {}', i, p, q)
                else:
                    # the middle is the point nearest to the corner
                    gap = r * (1 / math.cos(math.radians(turn) / 2) - 1)
                    ensure(abs(num.dist(p, vertices[i]) - gap) <= 1e-6 * scale, 'the arc of the corner {} of {} is on the wrong side', i, vertices)
    for i, part in enumerate(path):
        j = (i + 1) % n
        expected = (stops[i], starts[j])
        for points, what in ((part.points, 'points'), (part.geometry.points, 'geometry')):
            got = tuple(xy(p) for p in points)
            ensure(all(num.pclose(p, q, scale, 1e-6, 1e-6) for p, q in zip(got, expected)), '{} {} of the side {} of {} with radii {}, expected {}',
                   what, got, i, vertices, radii, expected)
    # box of everything which is drawn
    xs, ys = [], []
    for i, part in enumerate(path):
        for p in (stops[i], starts[(i + 1) % n]):
            xs.append(p[0])
            ys.append(p[1])
        if radii[i]:
            start, stop, centre, turn = corner(vertices[i - 1], vertices[i], vertices[(i + 1) % n], radii[i])
            a, b = (start, stop) if turn >= 0 else (stop, start)
            angle = math.degrees(math.atan2(a[1] - centre[1], a[0] - centre[0]))
            for k in range(4):
                if (90 * k - angle) % 360 <= abs(turn):
                    xs.append(centre[0] + radii[i] * (1, 0, -1, 0)[k])
                    ys.append(centre[1] + radii[i] * (0, 1, 0, -1)[k])
    box = path.bounding_box
    for got, expected in ((box.x.inf, min(xs)), (box.x.sup, max(xs)), (box.y.inf, min(ys)), (box.y.sup, max(ys))):
        ensure(abs(got - expected) <= 1e-5 * scale, 'bounding box {} of the path, expected {}', (box.x.inf, box.x.sup, box.y.inf, box.y.sup), (min(xs), max(xs), min(ys), max(ys)))
    return arcs


@check.facet(chains(), quick=1300)
def corners(case):
    vertices, kinds, fractions, closed = case
    if closed:
        # the closing side and its corners must be sensible
        first, last = vertices[0], vertices[-1]
        if (num.dist(first, last) < .1 or abs(turn_of(vertices[-2], last, first)) > 175 or abs(turn_of(last, first, vertices[1])) > 175):
            closed = False
    radii = radii_of(vertices, fractions, closed)
    path = build(vertices, kinds, radii, closed)
    ensure(path.is_closed == closed, 'closed')
    arcs = check_rounding(path, vertices, radii, closed)
    # a second look gives the same
    check_rounding(path, vertices, radii, closed)
    if not arcs:
        return None
    return 'closed' if closed else 'open'


@check.facet(st.tuples(gen.point_lattice, st.integers(1, 20), st.integers(1, 20), st.sampled_from([None, .1, .25, .5]), gen.angle), quick=400)
def shapes(case):
    """Constructors of rounded rectangles and circles, rotated"""
    (x, y), width, height, fraction, angle = case
    radius = None if fraction is None else fraction * min(width, height)
    vertices = [(x, y), (x + width, y), (x + width, y + height), (x, y + height)]
    path = Path2D.rounded_rectangle(paths.V((x, y)), width, height, radius)
    ensure(path.is_closed and len(path) == 4, 'a rounded rectangle is closed and has four sides')
    check_rounding(path, vertices, [radius] * 4, True)
    path.rotate(angle)
    check_rounding(path, [num.rotate(p, angle) for p in vertices], [radius] * 4, True)
    circle = Path2D.circle(paths.V((x, y)), width)
    vertices = [(x, y), (x + 2 * width, y), (x + 2 * width, y + 2 * width), (x, y + 2 * width)]
    check_rounding(circle, vertices, [float(width)] * 4, True)
    for part in circle:
        ensure_point(part.bulge_geometry.center, (x + width, y + width), 'centre of the circle', scale=100)
    return None if radius is None else 'rectangle'

####################################################################################################

def arc_distance(p, centre, radius, start, turn):
    """Distance to the arc which leaves *start* and turns by *turn* degrees around *centre*"""
    u = sub(p, centre)
    if norm(u) < 1e-9 * radius:
        return radius
    v = sub(start, centre)
    angle = math.degrees(math.atan2(cross(v, u), dot(v, u))) * (1 if turn >= 0 else -1)
    if 0 <= angle <= abs(turn):
        return abs(norm(u) - radius)
    return min(num.dist(p, start), num.dist(p, add(centre, num.rotate(v, turn))))


@check.facet(st.tuples(chains(), st.lists(st.tuples(st.integers(0, 7), gen.point_lattice, st.sampled_from([0., .25, 1., 4.])), min_size=1, max_size=6)), quick=600)
def distances(case):
    """Distance of points to the outline"""
    (vertices, kinds, fractions, closed), queries = case
    if closed:
        first, last = vertices[0], vertices[-1]
        if (num.dist(first, last) < .1 or abs(turn_of(vertices[-2], last, first)) > 175 or abs(turn_of(last, first, vertices[1])) > 175):
            closed = False
    radii = radii_of(vertices, fractions, closed)
    n = len(vertices)
    for i in range(n):
        if radii[i] and abs(turn_of(vertices[i - 1], vertices[i], vertices[(i + 1) % n])) < 1e-3:
            # no arc at a straight corner
            radii[i] = None
    path = build(vertices, kinds, radii, closed)
    starts, stops, arcs = list(vertices), list(vertices), []
    for i in range(n):
        if radii[i]:
            starts[i], stops[i], centre, turn = corner(vertices[i - 1], vertices[i], vertices[(i + 1) % n], radii[i])
            arcs.append((centre, radii[i], starts[i], turn))
    scale = max(1., num.magnitude_of(*vertices)) + max([r or 0 for r in radii])
    label = None
    targets = vertices + [arc[0] for arc in arcs]
    for i, offset, factor in queries:
        p = add(targets[i % len(targets)], mul(offset, factor))
        sides = [num.distance_to_segment(p, stops[j], starts[(j + 1) % n]) for j in range(len(path))]
        rounds = [arc_distance(p, *arc) for arc in arcs]
        expected = min(sides + rounds)
        got = path.distance_to_point(paths.V(p))
        ensure(abs(got - expected) <= 1e-5 * (scale + num.norm(p)), 'distance of {} to the path {} with radii {}: {} instead of {}', p, vertices, radii, got, expected)
        if rounds and min(rounds) < min(sides):
            label = 'arc'
    return label or ('side' if arcs else None)
