"""P01 — plane vectors"""

import math

from hypothesis import strategies as st

from Patro.GeometryEngine.Vector import Vector2D, Vector2DInt, NormalisedVector2D, HomogeneousVector2D

from pbt import gen, num
from pbt import scaling
from pbt.harness import Check, ensure, fail
from pbt.num import close, ensure_close, ensure_point, xy

check = Check(
    'P01',
    rule='Hypothesis generates vectors (lattice, dyadic, decimal, wide floats), scalars, angles and '
         'operation histories; a case is non-trivial when the vectors involved are not null and not both axis-aligned, or '
         'when a history contains an in-place operation on a vector that has been copied.',
    assumptions=['coordinates up to 1e4 in magnitude', 'angles recovered by arc functions are compared within 1e-5 degree'],
)


def V(p):
    return Vector2D(p[0], p[1])


def _generic(*vectors):
    return any(p[0] and p[1] for p in vectors)


####################################################################################################

@check.facet(st.tuples(gen.point, gen.point, gen.nonzero_scalar, gen.nonzero_point(), ), quick=3000)
def algebra(case):
    p, q, s, k = case
    a, b = V(p), V(q)
    scale = num.magnitude_of(p, q)

    def eq(v, expected, what):
        ensure_point(v, expected, what, scale=0, rtol=1e-12, atol=1e-12)

    eq(a + b, (p[0] + q[0], p[1] + q[1]), 'sum')
    eq(a - b, (p[0] - q[0], p[1] - q[1]), 'difference')
    eq(-a, (-p[0], -p[1]), 'opposite')
    eq(+a, p, 'identity')
    eq(abs(a), (abs(p[0]), abs(p[1])), 'abs')
    eq(a * s, (p[0] * s, p[1] * s), 'right scaling')
    eq(s * a, (p[0] * s, p[1] * s), 'left scaling')
    eq(a / s, (p[0] / s, p[1] / s), 'division')
    eq(a.scale(s, k[0]), (p[0] * s, p[1] * k[0]), 'component scaling')
    if k[0] and k[1]:
        eq(a.divide(k[0], k[1]), (p[0] / k[0], p[1] / k[1]), 'component division')
    ensure_close(a.dot(b), p[0] * q[0] + p[1] * q[1], 'dot', scale=scale**2, rtol=1e-12)
    ensure_close(a.cross(b), p[0] * q[1] - p[1] * q[0], 'cross', scale=scale**2, rtol=1e-12)
    ensure_close(a.perp_dot(b), p[0] * q[1] - p[1] * q[0], 'perp dot', scale=scale**2, rtol=1e-12)
    ensure_close(a.magnitude_square, p[0]**2 + p[1]**2, 'squared norm', rtol=1e-12)
    ensure_close(a.magnitude, math.hypot(*p), 'norm', rtol=1e-12)
    eq(Vector2D.middle(a, b), ((p[0] + q[0]) / 2, (p[1] + q[1]) / 2), 'middle')
    # operands are unchanged
    ensure(xy(a) == p and xy(b) == q, 'an operand changed: {} {} versus {} {}', xy(a), xy(b), p, q)
    # equality
    ensure((a == b) == (p == q), 'equality of {} and {}', p, q)
    ensure(a == V(p), 'a vector is equal to its copy')
    ensure(bool(a.almost_equal(b)) == all(abs(x - y) <= 1e-8 + 1e-5 * abs(y) for x, y in zip(p, q)),
           'almost_equal of {} and {}', p, q)
    # sequence protocol
    ensure(len(a) == 2 and tuple(float(x) for x in a) == p and (float(a[0]), float(a[1])) == p, 'sequence protocol')
    ensure((a.x, a.y) == p and isinstance(a.x, float), 'coordinates')
    ensure(a.to_int_list() == [int(p[0]), int(p[1])], 'to_int_list')
    r = a.rint()
    ensure((r.x, r.y) == (round(p[0]), round(p[1])), 'rint of {}: {} {}', p, r.x, r.y)
    box = a.bounding_box
    ensure((box.x.inf, box.x.sup, box.y.inf, box.y.sup) == (p[0], p[0], p[1], p[1]), 'bounding box of a point')
    return 'generic' if _generic(p, q) else ('axis' if any(p + q) else None)


@check.facet(st.tuples(gen.point, gen.angle, gen.angle), quick=3000)
def rotations(case):
    p, angle, other = case
    a = V(p)
    scale = num.magnitude_of(p)
    ensure_point(a.rotate(angle), num.rotate(p, angle), 'rotate', scale=scale)
    ensure_point(a.rotate(angle, counter_clockwise=False), num.rotate(p, -angle), 'clockwise rotate', scale=scale)
    ensure_point(a.rotate(angle, False), num.rotate(p, -angle), 'clockwise rotate', scale=scale)
    ensure_point(a.rotate(angle).rotate(other), num.rotate(p, angle + other), 'rotate composition', scale=scale)
    ensure_point(a.normal, (-p[1], p[0]), 'normal is the counter-clockwise quarter turn')
    ensure_point(a.anti_normal, (p[1], -p[0]), 'anti normal is the clockwise quarter turn')
    ensure_point(a.parity, (-p[0], -p[1]), 'parity is the half turn')
    ensure_point(a.permute, (p[1], p[0]), 'permute swaps the coordinates')
    ensure_point(Vector2D.from_angle(angle), num.polar(1, angle), 'from_angle')
    ensure_point(Vector2D.from_polar(p[0], angle), num.polar(p[0], angle), 'from_polar', scale=scale)
    ensure_point(Vector2D.from_ellipse(p[0], p[1], angle),
                 (p[0] * math.cos(math.radians(angle)), p[1] * math.sin(math.radians(angle))), 'from_ellipse', scale=scale)
    ensure(xy(a) == p, 'the vector changed')
    if not any(p):
        return None
    return ('clockwise' if angle < 0 else 'counter-clockwise') if angle % 90 else 'right angle'


@check.facet(st.tuples(gen.nonzero_point(gen.point), gen.nonzero_point(gen.point)), quick=3000)
def angles(case):
    p, q = case
    a, b = V(p), V(q)
    na, nb = num.norm(p), num.norm(q)

    o = a.orientation
    ensure(-180 <= o <= 180, 'orientation {} out of range', o)
    ensure(num.angle_difference(o, num.orientation(p)) < 1e-9, 'orientation of {}: {}', p, o)
    ensure_point(Vector2D.from_polar(a.magnitude, o), p, 'polar coordinates round-trip', scale=na, rtol=1e-9)

    c = num.dot(p, q) / (na * nb)
    s = num.cross(q, p) / (na * nb)   # from direction (q) to self (p)
    ensure_close(a.cos_with(b), c, 'cosinus', atol=1e-12)
    ensure_close(a.sin_with(b), s, 'sinus', atol=1e-12)
    ensure(-1 <= a.cos_with(b) <= 1 and -1 <= a.sin_with(b) <= 1, 'trigonometric range')
    ensure_close(a.projection_on(b), num.dot(p, q) / nb, 'projection', scale=na, rtol=1e-12)
    ensure_close(a.deviation_with(b), num.cross(q, p) / nb, 'deviation', scale=na, rtol=1e-12)

    for method in (a.angle_with, a.orientation_with):
        angle = method(b)
        ensure(-180 <= angle <= 180, 'angle {} out of range', angle)
        expected = math.degrees(math.atan2(s, c))
        ensure(num.angle_difference(angle, expected) < 1e-5, 'angle of {} with {}: {} instead of {}', p, q, angle, expected)
    # the angle is the rotation from the direction to the vector
    turned = num.mul(num.rotate(q, a.angle_with(b)), na / nb)
    ensure(num.dist(turned, p) <= 1e-6 * na, 'rotating the direction by the angle gives {} instead of {}', turned, p)

    n = a.to_normalised()
    ensure_point(n, num.mul(p, 1 / na), 'normalised', rtol=1e-12)
    ensure(xy(a) == p, 'to_normalised changed the vector')
    a2 = V(p)
    ensure_point(a2.normalise(), num.mul(p, 1 / na), 'normalise', rtol=1e-12)
    ensure_point(a2, num.mul(p, 1 / na), 'normalise in place', rtol=1e-12)
    if p[0]:
        ensure_close(a.tan, p[1] / p[0], 'tan', rtol=1e-12)
    if p[1]:
        ensure_close(a.inverse_tan, p[0] / p[1], 'inverse tan', rtol=1e-12)
    ensure(xy(b) == q, 'an operand changed')
    return ('parallel' if abs(s) < 1e-9 else 'orthogonal' if abs(c) < 1e-9 else
            ['acute', 'obtuse'][c < 0] + ['+', '-'][s < 0])


_lattice_pair = st.one_of(
    st.tuples(gen.point_lattice, gen.point_lattice),
    st.tuples(gen.point_lattice, st.integers(-4, 4)).map(lambda t: (t[0], num.mul(t[0], float(t[1])))),
    st.tuples(gen.point_lattice, st.integers(-4, 4)).map(lambda t: (t[0], num.mul((-t[0][1], t[0][0]), float(t[1])))),
)


_power = st.sampled_from([0, 0, 0, -40, -20, -12, 12, 20, 40])


@check.facet(st.tuples(_lattice_pair, _power, _power), quick=1500)
def predicates(case):
    (p, q), k1, k2 = case
    # any magnitude: the products are exact
    p, q = num.mul(p, 2.**k1), num.mul(q, 2.**k2)
    a, b = V(p), V(q)
    cross, dot = num.cross(p, q), num.dot(p, q)
    ensure(bool(a.is_parallel(b)) == (cross == 0), 'is_parallel of {} and {}', p, q)
    test, value = a.is_parallel(b, return_cross=True)
    ensure(bool(test) == (cross == 0) and value == cross, 'is_parallel with cross of {} and {}', p, q)
    ensure(bool(a.is_orthogonal(b)) == (dot == 0), 'is_orthogonal of {} and {}', p, q)
    if p == (0, 0):
        try:
            a.orientation
        except NameError:
            pass
        else:
            fail('a null vector has no orientation')
    return 'parallel' if not cross else 'orthogonal' if not dot else 'general'


@check.facet(st.tuples(gen.point, st.integers(-1000, 1000), st.integers(-1000, 1000)), quick=800)
def constructors(case):
    p, i, j = case
    forms = [Vector2D(p[0], p[1]), Vector2D(p), Vector2D(list(p)), Vector2D(V(p)), V(p).clone(),
             Vector2D.from_list([p])[0], Vector2D.from_coordinates(p)[0], HomogeneousVector2D(V(p)).to_vector()]
    for v in forms:
        ensure(xy(v) == p, 'constructor gives {} for {}', xy(v), p)
    pts = [p, (p[1], p[0]), (1., 2.)]
    ensure([xy(v) for v in Vector2D.from_coordinates(*pts)] == pts, 'from_coordinates')
    ensure([xy(v) for v in Vector2D.from_list(pts)] == pts, 'from_list')
    # copies are independent
    source = V(p)
    copies = [Vector2D(source), source.clone(), +source]
    for copy in copies:
        copy.x = p[0] + 1
        copy[1] = p[1] - 1
        ensure(xy(copy) == (p[0] + 1, p[1] - 1), 'item assignment gives {}', xy(copy))
    ensure(xy(source) == p, 'a copy shares its coordinates with the source')
    for bad in ((), (1, 2, 3), ((1, 2, 3),), (1,), ((1,),)):
        try:
            Vector2D(*bad)
        except (ValueError, TypeError):
            pass
        else:
            fail('constructor accepts {}', bad)
    u, w = Vector2DInt(i, j), Vector2DInt(j, 7)
    ensure((u.x, u.y) == (i, j) and isinstance(u.x, int), 'integer vector')
    ensure(((u + w).x, (u + w).y) == (i + j, j + 7) and ((u - w).x, (u - w).y) == (i - j, j - 7), 'integer sum')
    ensure(((-u).x, (-u).y) == (-i, -j) and (abs(u).x, abs(u).y) == (abs(i), abs(j)), 'integer opposite')
    box = u.bounding_box
    ensure((box.x.inf, box.x.sup, box.y.inf, box.y.sup) == (i, i, j, j), 'integer box')
    h = HomogeneousVector2D(V(p))
    ensure([float(x) for x in h.v] == [p[0], p[1], 1.], 'homogeneous coordinates')
    nv = NormalisedVector2D(p)
    ensure_point(nv * 2, num.mul(p, 2), 'normalised vector scaling')
    ensure_point(2 * nv, num.mul(p, 2), 'normalised vector scaling')
    return 'generic' if _generic(p) else None


_op = st.one_of(
    st.tuples(st.sampled_from(['+=', '-=', '+', '-', 'copy', 'alias', 'neg', 'abs', 'middle']), st.integers(0, 3), st.integers(0, 3)),
    st.tuples(st.sampled_from(['*=', '/=', '*', '/', 'setx', 'sety']), st.integers(0, 3), gen.nonzero_scalar),
    st.tuples(st.sampled_from(['normalise', 'rotate', 'normal', 'scale']), st.integers(0, 3), st.sampled_from([30., 90., -60., 180.])),
)


@check.facet(st.tuples(st.lists(gen.nonzero_point(), min_size=4, max_size=4), st.lists(_op, min_size=1, max_size=25)), quick=1500)
def histories(case):
    """Sequence of in-place and copying operations on four slots; slots may deliberately alias"""
    start, operations = case
    real = [V(p) for p in start]
    model = [list(p) for p in start]   # a list object per vector: aliasing is modelled by sharing it
    in_place_after_copy = False
    copied = set()
    for op, i, arg in operations:
        a, m = real[i], model[i]
        if max(abs(m[0]), abs(m[1])) > 1e30:
            break
        if op in ('+=', '-=', '*=', '/=', 'setx', 'sety', 'normalise'):
            in_place_after_copy |= id(m) in copied
        if op == '+=':
            dx, dy = model[arg]
            m[0], m[1] = m[0] + dx, m[1] + dy
            real[i] += real[arg]
            ensure(real[i] is a, '+= replaced the vector')
        elif op == '-=':
            dx, dy = model[arg]
            m[0], m[1] = m[0] - dx, m[1] - dy
            real[i] -= real[arg]
            ensure(real[i] is a, '-= replaced the vector')
        elif op == '*=':
            real[i] *= arg
            m[0], m[1] = m[0] * arg, m[1] * arg
            ensure(real[i] is a, '*= replaced the vector')
        elif op == '/=':
            real[i] /= arg
            m[0], m[1] = m[0] / arg, m[1] / arg
            ensure(real[i] is a, '/= replaced the vector')
        elif op == 'setx':
            a.x = arg
            m[0] = arg
        elif op == 'sety':
            a.y = arg
            m[1] = arg
        elif op == 'normalise':
            n = math.hypot(*m)
            if n > 1e-6:
                a.normalise()
                m[0], m[1] = m[0] / n, m[1] / n
        elif op == 'alias':
            real[arg], model[arg] = a, m
        else:
            if op == 'copy':
                real[arg], model[arg] = a.clone(), list(m)
                copied.update((id(m), id(model[arg])))
            else:
                if op == '+':
                    v, w = a + real[arg], [m[0] + model[arg][0], m[1] + model[arg][1]]
                elif op == '-':
                    v, w = a - real[arg], [m[0] - model[arg][0], m[1] - model[arg][1]]
                elif op == '*':
                    v, w = a * arg, [m[0] * arg, m[1] * arg]
                elif op == '/':
                    v, w = a / arg, [m[0] / arg, m[1] / arg]
                elif op == 'neg':
                    v, w = -a, [-m[0], -m[1]]
                elif op == 'abs':
                    v, w = abs(a), [abs(m[0]), abs(m[1])]
                elif op == 'middle':
                    v, w = Vector2D.middle(a, real[arg]), [(m[0] + model[arg][0]) / 2, (m[1] + model[arg][1]) / 2]
                elif op == 'rotate':
                    v, w = a.rotate(arg), list(num.rotate(m, arg))
                elif op == 'normal':
                    v, w = a.normal, [-m[1], m[0]]
                elif op == 'scale':
                    v, w = a.scale(arg, 2.), [m[0] * arg, m[1] * 2.]
                j = (i + 1) % 4
                real[j], model[j] = v, w
        for k in range(4):
            ensure_point(real[k], tuple(model[k]), 'slot {} after {}', k, (op, i, arg), scale=num.magnitude_of(*model), rtol=1e-9, atol=1e-9)
    return 'in place after copy' if in_place_after_copy else 'plain'


@check.facet(st.tuples(gen.nonzero_point(gen.point), gen.nonzero_point(gen.point), gen.angle, scaling.exponent), quick=1000)
def scales(case):
    p, q, angle, k = case

    def evaluate(p, q):
        a, b = V(p), V(q)
        return dict(
            magnitude=(1, lambda: a.magnitude), magnitude_square=(2, lambda: a.magnitude_square), orientation=(0, lambda: a.orientation),
            dot=(2, lambda: a.dot(b)), cross=(2, lambda: a.cross(b)), cos=(0, lambda: a.cos_with(b)), sin=(0, lambda: a.sin_with(b)),
            angle=(0, lambda: a.angle_with(b)), deviation=(1, lambda: a.deviation_with(b)), projection=(1, lambda: a.projection_on(b)),
            rotated=(1, lambda: a.rotate(angle)), normalised=(0, lambda: V(p).normalise()),
            is_parallel=(0, lambda: bool(a.is_parallel(b))), is_orthogonal=(0, lambda: bool(a.is_orthogonal(b))),
        )

    scaling.verify(evaluate, [p, q], k)
    return 'scaled'
