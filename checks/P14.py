"""P14 — Bézier measures"""

import math

import numpy as np

from hypothesis import strategies as st

from Patro.GeometryEngine.Bezier import CubicBezier2D, QuadraticBezier2D
from Patro.GeometryEngine.Line import Line2D
from Patro.GeometryEngine.Transformation import AffineTransformation2D
from Patro.GeometryEngine.Vector import Vector2D

from pbt import gen, num
from pbt import scaling
from pbt.harness import Check, ensure, fail
from pbt.num import ensure_point, cross, dist, dot, ensure_close, lerp, mul, norm, sub, xy

from .P13 import casteljau, control_points, controls, derivative, make

check = Check(
    'P14',
    rule='Hypothesis generates quadratic and cubic control points (collinear with turning points, repeated, closed), rigid motions, points, lines and '
         'tolerances.  The oracle is the dense sampling of the curve (4001 points) and refinement.  A case is non-trivial when the control points are not all equal.',
    assumptions=['coordinates up to 1e4 (1e7 for lengths)', 'the length of a cubic curve is an approximation, whose documented precision is 1e-3 by quadratic piece: 0.02 is tolerated',
                 'lines that are nearly tangent to the curve are only checked for the soundness of the intersections'],
)

_T = np.linspace(0, 1, 4001)


def V(p):
    return Vector2D(p)


def sample(points, t=_T):
    n = len(points) - 1
    t = np.asarray(t, dtype=float)
    result = np.zeros((len(t), 2))
    for k, p in enumerate(points):
        result += np.outer(math.comb(n, k) * t**k * (1 - t)**(n - k), p)
    return result


def reference_length(points):
    d = np.diff(sample(points), axis=0)
    return float(np.hypot(d[:, 0], d[:, 1]).sum())


def reference_area(points):
    """Signed area on the left of the curve closed by its chord, exact for polynomials: Gauss-Legendre"""
    t, w = np.polynomial.legendre.leggauss(8)
    t = (t + 1) / 2
    total = 0.
    for u, v in zip(t, w):
        p, d = sub(casteljau(points, u), points[0]), derivative(points, u)
        total += cross(p, d) * v / 2
    return total / 2


def distance_to_polyline(c, S):
    c = np.array(c)
    v = np.diff(S, axis=0)
    w = c - S[:-1]
    n = (v**2).sum(axis=1)
    n[n == 0] = 1
    t = np.clip((v * w).sum(axis=1) / n, 0, 1)
    d = w - v * t[:, None]
    return float(np.hypot(d[:, 0], d[:, 1]).min())


def label_of(points):
    if len(set(points)) == 1:
        return None
    return 'quadratic' if len(points) == 3 else 'cubic'


def precision(points, scale):
    return 1e-5 * scale + (0 if len(points) == 3 else .02)


@check.facet(st.tuples(control_points(), gen.angle, gen.nonzero_point(gen.point_tame), st.sampled_from([1, 1, 1, 1000])), quick=700, shards=2)
def lengths(case):
    points, angle, offset, factor = case
    points = [mul(p, factor) for p in points]
    curve = make(points)
    scale = num.magnitude_of(*points)
    expected = reference_length(points)
    tolerance = precision(points, scale)
    length = curve.length
    ensure(abs(length - expected) <= tolerance, 'length of {}: {} instead of {}', points, length, expected)
    ensure(length >= dist(points[0], points[-1]) - tolerance, 'the length is at least the chord')
    interpolated = curve.interpolated_length(dt=1 / 512)
    ensure(expected - 1e-2 * scale <= interpolated <= expected + 1e-5 * scale, 'interpolated length of {}: {} instead of {}', points, interpolated, expected)
    control_length = sum(dist(p, q) for p, q in zip(points, points[1:]))
    if control_length == 0:
        ensure(curve.interpolated_length() == 0, 'default interpolated length of a point')
    if 1 <= control_length <= 40:      # default step
        interpolated = curve.interpolated_length()
        ensure(expected - .06 - 1e-2 * expected <= interpolated <= expected + 1e-5 * scale, 'default interpolated length of {}: {} instead of {}',
               points, interpolated, expected)
    reverse = curve.reverse()
    ensure(abs(reverse.length - expected) <= tolerance, 'length of the reversed curve')
    moved = curve.rotate(angle, clone=True)
    ensure(abs(moved.length - expected) <= tolerance, 'length of the rotated curve')
    moved.transform(AffineTransformation2D.Translation(V(offset)))
    ensure(abs(moved.length - expected) <= precision(points, num.magnitude_of(offset, *points)), 'length of the moved curve')
    mirrored = curve.x_mirror(clone=True)
    ensure(abs(mirrored.length - expected) <= tolerance, 'length of the mirrored curve')
    if len(points) == 3:
        ensure(abs(curve.to_cubic().length - expected) <= 1e-5 * scale + .02, 'length of the elevated curve')
    ensure(controls(curve) == points, 'the curve changed')
    return label_of(points)


@check.facet(st.tuples(control_points(), gen.inner_parameter, gen.inner_parameter, st.integers(1, 3), gen.angle), quick=250, shards=2)
def curvilinear(case):
    """Length at a parameter, and conversely, along a history of transforms"""
    points, t, fraction, factor, angle = case
    curve = make(points)
    scale = num.magnitude_of(*points) * factor
    tolerance = precision(points, scale)
    for step in range(2):
        n = len(points) - 1
        part = [casteljau(points[:k + 1], t) for k in range(n + 1)]
        expected = reference_length(part)
        for cache in (False, True, True):
            length = curve.length_at_t(t, cache=cache)
            ensure(abs(length - expected) <= tolerance, 'length at {} of {}: {} instead of {}', t, points, length, expected)
        ensure(abs(curve.length_at_t(1) - reference_length(points)) <= tolerance and curve.length_at_t(0) == 0, 'length at the ends')
        total = curve.length
        wanted = fraction * total
        u = curve.t_at_length(wanted)
        ensure(0 <= u <= 1, 'parameter {} at the length {}', u, wanted)
        part = [casteljau(points[:k + 1], u) for k in range(n + 1)]
        ensure(abs(reference_length(part) - wanted) <= 2 * tolerance + 1e-5, 'the parameter at the length {} is {}, where the length is {}', wanted, u,
               reference_length(part))
        ensure(curve.t_at_length(0) == 0, 'parameter at the start')
        if total > 1e-3:
            ensure(curve.t_at_length(total) == 1, 'parameter at the end')
        for bad in (-1., total + 1.):
            try:
                curve.t_at_length(bad)
            except ValueError:
                pass
            else:
                fail('a length of {} is accepted, the curve measures {}', bad, total)
        # change the curve in place
        curve.scale(float(factor) + 1)
        points = [mul(p, factor + 1.) for p in points]
        tolerance *= factor + 1
    return label_of(points)


@check.facet(st.tuples(control_points(4, 4), gen.angle, gen.nonzero_point(gen.point_tame), st.integers(1, 10**6).map(lambda i: i / 1000)), quick=1500)
def area_and_flatness(case):
    points, angle, offset, flatness = case
    curve = make(points)
    scale = num.magnitude_of(offset, *points)
    expected = reference_area(points)
    tolerance = 1e-9 * scale**2
    ensure(abs(curve.area - expected) <= tolerance, 'area of {}: {} instead of {}', points, curve.area, expected)
    ensure(abs(curve.reverse().area + expected) <= tolerance, 'area of the reversed curve')
    ensure(abs(curve.rotate(angle, clone=True).area - expected) <= tolerance, 'area of the rotated curve')
    ensure(abs(curve.transform(AffineTransformation2D.Translation(V(offset)), clone=True).area - expected) <= tolerance, 'area of the moved curve')
    ensure(abs(curve.y_mirror(clone=True).area + expected) <= tolerance, 'area of the mirrored curve')

    chord = sample([points[0], lerp(points[0], points[3], 1 / 3), lerp(points[0], points[3], 2 / 3), points[3]])
    d = sample(points) - chord
    deviation = float(np.hypot(d[:, 0], d[:, 1]).max())
    label = 'curved'
    for f in (flatness, deviation * .9, deviation * 1.01, deviation * 4, deviation * 60):
        if f > 1e-6 * scale:
            flat = bool(curve.is_flat_enough(f))
            if flat:
                ensure(deviation <= f * (1 + 1e-9), '{} is declared flat at {}, its deviation is {}', points, f, deviation)
                label = 'flat'
            else:
                ensure(deviation > .02 * f, '{} is not declared flat at {}, its deviation is {}', points, f, deviation)
    return label if label_of(points) else None


@check.facet(st.tuples(control_points(), st.one_of(gen.point_tame, gen.point_lattice), gen.parameter, st.integers(-2000, 2000).map(lambda i: i / 1000)),
             quick=90, shards=4)
def nearest(case):
    points, q, t, offset = case
    curve = make(points)
    # a point in front of the curve
    d = derivative(points, t)
    p = casteljau(points, t)
    if norm(d) > 1e-3:
        p = (p[0] - d[1] / norm(d) * offset, p[1] + d[0] / norm(d) * offset)
    S = sample(points)
    for target in (q, p):
        scale = num.magnitude_of(target, *points)
        distances = np.hypot(S[:, 0] - target[0], S[:, 1] - target[1])
        best = float(distances.min())
        c = xy(curve.closest_point(V(target)))
        ensure(dist(c, target) <= best + 1e-6 * scale, 'the nearest point of {} on {} is {} at {}, a sample is at {}', target, points, c, dist(c, target), best)
        ensure(abs(curve.distance_to_point(V(target)) - dist(c, target)) <= 1e-9 * scale, 'distance to the point')
        # it is on the curve
        gap = distance_to_polyline(c, S)
        ensure(gap <= 1e-5 * scale, 'the nearest point {} is off the curve {} by {}', c, points, gap)
    ensure(controls(curve) == points, 'the curve changed')
    return label_of(points)


@check.facet(st.tuples(control_points(), st.one_of(gen.point_tame, gen.point_lattice), st.one_of(gen.nonzero_point(gen.point_lattice), gen.nonzero_point(gen.point_tame)),
                       st.one_of(st.none(), gen.parameter)),
             quick=250, shards=3)
def lines(case):
    points, a, v, t = case
    if t is not None:
        a = casteljau(points, t)    # through a point of the curve
    curve = make(points)
    scale = num.magnitude_of(a, *points)
    n = norm(v)
    S = sample(points)
    d = ((S[:, 1] - a[1]) * v[0] - (S[:, 0] - a[0]) * v[1]) / n
    if float(np.abs(d).max()) < 1e-6 * scale:
        return None     # the curve lies on the line
    roots = curve.intersect_line(Line2D(V(a), V(v)))
    roots = [float(r) for r in (roots if roots is not None else ())]
    for r in roots:
        if 0 <= r <= 1:
            p = casteljau(points, r)
            gap = abs(cross(v, sub(p, a))) / n
            ensure(gap <= 1e-5 * scale, 'the intersection at {} of {} is off the line {} {} by {}', r, points, a, v, gap)
    # every clear crossing is reported
    label = None
    for i in np.nonzero(d[:-1] * d[1:] < 0)[0]:
        low, high = max(0, i - 4), min(len(d) - 1, i + 5)
        if abs(d[low]) < 1e-6 * scale or abs(d[high]) < 1e-6 * scale or (d[low] > 0) == (d[high] > 0):
            continue
        ensure(any(_T[low] - 1e-9 <= r <= _T[high] + 1e-9 for r in roots), 'the curve {} crosses the line {} {} at {}, found {}', points, a, v, _T[i], roots)
        label = label_of(points)
    ensure(len(roots) <= len(points) - 1, 'too many intersections')
    # the fat line encloses the curve
    if dist(points[0], points[-1]) > 1e-3 * scale:
        line, d_min, d_max = curve.fat_line()
        w = sub(points[-1], points[0])
        e = ((S[:, 1] - points[0][1]) * w[0] - (S[:, 0] - points[0][0]) * w[1]) / norm(w)
        ensure(float(e.min()) >= d_min - 1e-6 * scale and float(e.max()) <= d_max + 1e-6 * scale, 'the curve {} goes out of its fat line {} {}', points, d_min, d_max)
        ensure(abs(cross(xy(line.v), w)) <= 1e-8 * scale * norm(w) and abs(cross(w, sub(xy(line.p), points[0]))) <= 1e-8 * scale * norm(w), 'base of the fat line')
        # it is not wider than what the control points ask for
        offsets = [cross(w, sub(q, points[0])) / norm(w) for q in points[1:-1]]
        ensure(d_max <= .75 * max(0, *offsets) + 1e-6 * scale and d_min >= .75 * min(0, *offsets) - 1e-6 * scale if len(points) == 4
               else d_max <= .5 * max(0, *offsets) + 1e-6 * scale and d_min >= .5 * min(0, *offsets) - 1e-6 * scale,
               'the fat line {} {} of {} is too wide', d_min, d_max, points)
    # the curve of the signed distance to the line
    graph = curve.non_parametric_curve(Line2D(V(a), V(v)))
    ensure(type(graph) is type(curve), 'type of the curve of distances')
    for q in (0, .25, .6, 1):
        ensure_point(graph.point_at_t(q), (q, cross(v, sub(casteljau(points, q), a)) / n), 'distance of {} at {} to the line {} {}', points, q, a, v, scale=scale)
    return label


@check.facet(st.tuples(control_points(), gen.point_tame, scaling.exponent), quick=300)
def scales(case):
    points, probe, k = case

    def evaluate(points, probe):
        curve = make(points)
        result = dict(distance=(1, lambda: curve.distance_to_point(Vector2D(probe))))
        if len(points) == 3:
            result.update(length=(1, lambda: curve.length))
        else:
            # the length of a cubic curve is computed up to an absolute precision
            result.update(area=(2, lambda: curve.area))
        return result

    scaling.verify(evaluate, [[tuple(p) for p in points], probe], k)
    return 'scaled'
