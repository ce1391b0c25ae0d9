"""P15 — B-splines: evaluation, knot insertion, conversion to Bézier curves, clone, transformation and reversal"""

import math

from hypothesis import strategies as st

from Patro.GeometryEngine.Bezier import CubicBezier2D, QuadraticBezier2D
from Patro.GeometryEngine.Spline import BSpline2D, CubicUniformSpline2D, QuadraticUniformSpline2D
from Patro.GeometryEngine.Vector import Vector2D

from pbt import gen, num
from pbt.harness import Check, ensure, fail
from pbt.num import ensure_point, lerp, xy

check = Check(
    'P15',
    rule='Hypothesis generates control polygons, degrees 1 to 5, uniform, clamped and unclamped knot vectors with repeated knots, parameters with the '
         'knots and both ends, and histories of knot insertions, reversals, clones and transformations.  The oracle is the triangular Cox-de Boor scheme on floats '
         'and de Casteljau.  A case is non-trivial when the spline has at least two spans and its control points are not all equal.',
    assumptions=['coordinates up to 1e3, interior knots of multiplicity at most the degree before the insertions', 'open splines'],
)


def V(p):
    return Vector2D(p)


# -- reference ---------------------------------------------------------------------------------------------------

def span_of(knots, degree, n, t):
    """Last non-empty span [k_i, k_{i+1}[ of the domain which holds t, closed at the end of the domain"""
    spans = [i for i in range(degree, n) if knots[i] < knots[i + 1] and knots[i] <= t]
    return spans[-1] if spans else None


def basis(knots, degree, n, t):
    """The values of the n basis functions at t, by the triangular scheme"""
    span = span_of(knots, degree, n, t)
    values = [1.]
    left, right = [], []
    for j in range(1, degree + 1):
        left.append(t - knots[span + 1 - j])
        right.append(knots[span + j] - t)
        saved = 0.
        for r in range(j):
            w = values[r] / (right[r] + left[j - 1 - r])
            values[r] = saved + right[r] * w
            saved = left[j - 1 - r] * w
        values.append(saved)
    out = [0.] * n
    for j, value in enumerate(values):
        out[span - degree + j] = value
    return out


def reference(points, degree, knots, t):
    weights = basis(knots, degree, len(points), t)
    return (math.fsum(w * p[0] for w, p in zip(weights, points)), math.fsum(w * p[1] for w, p in zip(weights, points)))


def uniform_knots(degree, n):
    return [max(0, min(i - degree, n - degree)) for i in range(n + degree + 1)]


def casteljau(points, t):
    points = list(points)
    while len(points) > 1:
        points = [lerp(p, q, t) for p, q in zip(points, points[1:])]
    return points[0]


# -- generation ----------------------------------------------------------------------------------------------------

@st.composite
def splines(draw, degrees=st.integers(1, 5), kinds=('uniform', 'uniform', 'clamped', 'clamped', 'unclamped')):
    degree = draw(degrees)
    kind = draw(st.sampled_from(kinds))
    n = degree + 1 + draw(st.integers(0, 5))
    points = draw(gen.points(n, n, st.one_of(gen.point_tame, gen.point_lattice)))
    if kind == 'uniform':
        return points, degree, None
    start = draw(st.integers(-20, 20)) / 4
    if kind == 'clamped':
        interior, knot, count = [], start, 0
        for _ in range(n - degree - 1):
            step = draw(st.sampled_from([0, .25, 1, 1, 2.5])) if interior and count < degree else draw(st.sampled_from([.25, 1, 1, 2.5]))
            count = count + 1 if step == 0 else 1
            knot += step
            interior.append(knot)
        end = knot + draw(st.sampled_from([.5, 1, 3]))
        knots = [start] * (degree + 1) + interior + [end] * (degree + 1)
    else:
        knots = [start]
        for _ in range(n + degree):
            knots.append(knots[-1] + draw(st.sampled_from([.25, .5, 1, 1, 1, 2])))
    return points, degree, knots


position = st.one_of(
    st.sampled_from([('fraction', 0.), ('fraction', 1.), ('fraction', .5)]),
    st.tuples(st.just('fraction'), gen.parameter),
    st.tuples(st.just('knot'), st.integers(0, 30)),
)


def parameter_at(position, knots, degree, n):
    start, end = knots[degree], knots[n]
    kind, value = position
    if kind == 'knot':
        inner = knots[degree:n + 1]
        return inner[value % len(inner)]
    return min(end, start + value * (end - start))


def make(spline):
    points, degree, knots = spline
    return BSpline2D([V(p) for p in points], degree) if knots is None else BSpline2D([V(p) for p in points], degree, knots=knots)


def knots_of(spline):
    points, degree, knots = spline
    return uniform_knots(degree, len(points)) if knots is None else list(knots)


def label_of(spline):
    points, degree, knots = spline
    if len(set(points)) == 1 or len(set(knots_of(spline)[degree:len(points) + 1])) < 3:
        return None
    return 'uniform' if knots is None else ('clamped' if knots[0] == knots[degree] else 'unclamped')


def controls(spline):
    return [xy(p) for p in spline.points]


# -- facets ----------------------------------------------------------------------------------------------------------

@check.facet(st.tuples(splines(), position), quick=2500)
def evaluation(case):
    data, position = case
    points, degree, _ = data
    knots, n = knots_of(data), len(points)
    spline = make(data)
    scale = num.magnitude_of(*points)
    ensure(list(spline.knots) == knots, 'knots {}, expected {}', spline.knots, knots)
    ensure(spline.degree == degree and spline.order == degree + 1 and spline.number_of_points == n, 'degree, order and number of points')
    ensure(spline.start_knot == knots[degree] and spline.end_knot == knots[n], 'domain {} {} of {}', spline.start_knot, spline.end_knot, data)
    for t in (parameter_at(position, knots, degree, n), knots[degree], knots[n]):
        expected = reference(points, degree, knots, t)
        ensure_point(spline.point_at_t(t), expected, 'point at {} of {}', t, data, scale=scale)
        ensure_point(spline.point_at_t(t, naive=True), expected, 'naive point at {} of {}', t, data, scale=scale)
        weights = [spline.basis_function(i, degree, t) for i in range(n)]
        ensure(min(weights) >= -1e-12, 'negative basis function at {}: {}', t, weights)
        ensure(abs(math.fsum(weights) - 1) < 1e-9, 'the basis functions at {} sum to {}', t, math.fsum(weights))
        ensure(all(abs(a - b) < 1e-9 for a, b in zip(weights, basis(knots, degree, n, t))), 'basis functions at {}: {}', t, weights)
        ensure(knots[spline.span(t)] <= t <= knots[spline.span(t) + 1], 'span at {}', t)
        ensure(spline.knot_multiplicity(t) == knots.count(t), 'multiplicity of {}', t)
        # the point belongs to the caller
        p = spline.point_at_t(t)
        p.x, p.y = 12345, 54321
    ensure(controls(spline) == points, 'the spline changed')
    for t in (knots[degree] - 1, knots[n] + .25):
        try:
            p = spline.point_at_t(t)
        except ValueError:
            continue
        fail('no error at {}, out of the domain: {}', t, p)
    # closed or not, and the copies are alike
    closed = BSpline2D([V(p) for p in points], degree, closed=bool(n % 2), knots=data[2])
    for copy in (closed, closed.clone(), closed.reverse(), closed.reverse().reverse()):
        ensure(bool(copy.is_closed) == bool(n % 2) and copy.degree == degree, 'closed or not')
        ensure(copy.number_of_points == n and len(copy.knots) == len(knots), 'number of points and knots of a copy')
    ensure(not spline.is_closed, 'open by default')
    return label_of(data)


operation = st.one_of(
    st.tuples(st.just('insert'), position),
    st.tuples(st.just('insert'), position),
    st.tuples(st.just('insert'), position),
    st.tuples(st.sampled_from(['reverse', 'clone', 'rotate']), st.just(None)),
)


@check.facet(st.tuples(splines(), st.lists(operation, min_size=1, max_size=8), st.lists(position, min_size=1, max_size=3)), quick=2500)
def histories(case):
    data, operations, positions = case
    points, degree, _ = data
    knots = knots_of(data)
    # the function which is expected
    base, base_knots = list(points), list(knots)
    reversals, turns = 0, 0
    spline = make(data)
    scale = num.magnitude_of(*points)
    inserted = 0
    for kind, position in operations:
        n = len(spline)
        before = controls(spline), list(spline.knots)
        if kind == 'insert':
            t = parameter_at(position, knots, degree, n)
            # a rounded parameter next to a knot
            if any(0 < abs(t - k) < 1e-3 for k in knots) or knots.count(t) >= degree + 1:
                continue
            new = spline.insert_knot(t)
            knots = sorted(knots + [t])
            inserted += 1
            ensure(len(new) == n + 1, 'one point more by insertion')
            ensure(new is not spline, 'insertion gives another spline')
        elif kind == 'reverse':
            new = spline.reverse()
            a, b = knots[0], knots[-1]
            knots = [a + b - k for k in reversed(knots)]
            base.reverse()
            a, b = base_knots[0], base_knots[-1]
            base_knots = [a + b - k for k in reversed(base_knots)]
        elif kind == 'clone':
            new = spline.clone()
        else:
            new = spline.rotate(90, clone=True)
            base = [(-y, x) for x, y in base]
        ensure((controls(spline), list(spline.knots)) == before, 'the spline changed by {}', kind)
        ensure(isinstance(new, BSpline2D) and new.degree == degree, 'class and degree after {}', kind)
        ensure(len(new.knots) == len(knots) and all(abs(a - b) < 1e-9 for a, b in zip(new.knots, knots)), 'knots {} after {}, expected {}', new.knots, kind, knots)
        for p in new.points:
            for q in spline.points:
                ensure(p is not q, 'a point is shared after {}', kind)
        spline = new
        # follow the rounded values
        knots = list(spline.knots)
    n = len(spline)
    start, end = base_knots[degree], base_knots[len(base)]
    ensure(abs(spline.start_knot - start) < 1e-9 and abs(spline.end_knot - end) < 1e-9, 'domain')
    for position in positions + [('fraction', 0.), ('fraction', 1.)]:
        t = parameter_at(position, knots, degree, n)
        expected = reference(base, degree, base_knots, min(max(t, start), end))
        ensure_point(spline.point_at_t(t), expected, 'point at {} of {} after {}', t, data, operations, scale=scale, rtol=1e-8)
        ensure_point(spline.point_at_t(t, naive=True), expected, 'naive point at {} of {} after {}', t, data, operations, scale=scale, rtol=1e-8)
    return label_of(data) if inserted else None


@check.facet(st.tuples(splines(st.sampled_from([2, 3]), ('uniform',)), gen.parameter), quick=2500)
def bezier(case):
    data, u = case
    points, degree, _ = data
    n = len(points)
    knots = knots_of(data)
    scale = num.magnitude_of(*points)
    spline = make(data)
    form = spline.to_bezier_form()
    spans = n - degree
    ensure(spline.number_of_spans == spans, 'number of spans')
    ensure(len(form) == spans * (degree + 1), 'number of points of the Bezier form')
    curves = spline.to_bezier()
    ensure(len(curves) == spans, '{} Bezier curves for {} spans', len(curves), spans)
    cls = QuadraticBezier2D if degree == 2 else CubicBezier2D
    for i, curve in enumerate(curves):
        ensure(type(curve) is cls, 'class of a Bezier curve')
        cp = [xy(p) for p in curve.points]
        for v in (0., u, 1.):
            expected = reference(points, degree, knots, i + v)
            ensure_point(curve.point_at_t(v), expected, 'Bezier curve {} of {} at {}', i, data, v, scale=scale)
            ensure(num.pclose(casteljau(cp, v), expected, scale), 'control points of the Bezier curve {} of {}', i, data)
            ensure_point(form.point_at_t(i + v), expected, 'Bezier form of {} at {}', data, i + v, scale=scale)
        if i:
            ensure(num.pclose(cp[0], xy(curves[i - 1].end_point), scale), 'the curves {} and {} do not join', i - 1, i)
    ensure_point(curves[0].start_point, points[0], 'start', scale=scale)
    ensure_point(curves[-1].end_point, points[-1], 'end', scale=scale)
    ensure(controls(spline) == points and list(spline.knots) == knots, 'the spline changed')
    return label_of(data)


@check.facet(st.tuples(st.integers(3, 4).flatmap(lambda n: gen.points(n + 1, n + 1, st.one_of(gen.point_tame, gen.point_lattice)).map(lambda p: (n, p))),
                       gen.parameter), quick=2500)
def segments(case):
    (order, points), t = case
    degree = order - 1
    scale = num.magnitude_of(*points)
    cls, bezier_cls = (QuadraticUniformSpline2D, QuadraticBezier2D) if degree == 2 else (CubicUniformSpline2D, CubicBezier2D)
    window, following = points[:order], points[1:]
    spline = cls(*map(V, window))
    knots = list(range(2 * order))
    for u in (0., t, 1.):
        expected = reference(window, degree, knots, degree + u)
        ensure_point(spline.point_at_t(u), expected, '{} {} at {}', cls.__name__, window, u, scale=scale)
        bezier = spline.to_bezier()
        ensure(type(bezier) is bezier_cls, 'class of the Bezier curve')
        ensure_point(bezier.point_at_t(u), expected, 'Bezier curve of {} {} at {}', cls.__name__, window, u, scale=scale)
    ensure(num.pclose(xy(spline.point_at_t(1)), xy(cls(*map(V, following)).point_at_t(0)), scale), 'successive segments of {} do not join', points)
    if degree == 3:
        bezier = CubicBezier2D(*map(V, window))
        back = bezier.to_spline()
        ensure(type(back) is CubicUniformSpline2D, 'class of the spline')
        ensure_point(back.point_at_t(t), casteljau(window, t), 'spline of the Bezier curve {} at {}', window, t, scale=scale)
        for p, q in zip(back.to_bezier().points, window):
            ensure_point(p, q, 'Bezier curve to spline and back', scale=scale)
    ensure([xy(p) for p in spline.points] == window, 'the spline changed')
    copy = spline.clone()
    ensure(type(copy) is cls and [xy(p) for p in copy.points] == window, 'clone')
    return None if len(set(window)) == 1 or not 0 < t < 1 else cls.__name__


@check.facet(st.tuples(st.integers(0, 6), st.integers(0, 6), st.lists(st.integers(-6, 6), min_size=1, max_size=12)), quick=800)
def rejections(case):
    degree, n, values = case
    points = [(i, i * i % 5) for i in range(n)]

    def refused(f):
        try:
            f()
        except ValueError:
            return True
        return False
    ensure(refused(lambda: BSpline2D.uniform_knots(degree, n)) == (n < degree + 1), 'uniform knots of degree {} for {} points', degree, n)
    if n >= degree + 1:
        knots = BSpline2D.uniform_knots(degree, n)
        ensure(list(knots) == uniform_knots(degree, n), 'uniform knots {}', knots)
        ensure(bool(BSpline2D.check_for_unifom_knots(degree, n, knots)), 'uniform knots are uniform')
        ensure(not BSpline2D.check_for_unifom_knots(degree, n, knots[:-1] + [knots[-1] + 1]), 'other knots')
    points = [V((i, i * i % 5)) for i in range(len(values) + 3)]
    decreasing = any(a > b for a, b in zip(values, values[1:]))
    ensure(refused(lambda: BSpline2D(points, 2, knots=values)) == decreasing, 'knots {}', values)
    return 'decreasing' if decreasing else ('few points' if n < degree + 1 else None)
