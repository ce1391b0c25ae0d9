"""P02 — plane transformations"""

import math

from hypothesis import strategies as st

from Patro.GeometryEngine.Transformation import (
    AffineTransformation2D, IncompatibleArrayDimension, Transformation2D, TransformationType)
from Patro.GeometryEngine.Vector import HomogeneousVector2D, Vector2D

from pbt import gen, num
from pbt.harness import Check, ensure, fail
from pbt.num import ensure_close, ensure_point, xy

check = Check(
    'P02',
    rule='Hypothesis generates programs of transformations (rotation, rotation about a centre, uniform and anisotropic scaling, '
         'reflections, translation, screen flip) and the points they are applied to; the oracle applies the maps one by one on '
         'pairs of floats.  A case is non-trivial when at least one map is not the identity and the points are not all null.',
    assumptions=['scale factors between 1/50 and 20', 'at most six composed maps', 'comparison relative to the largest coordinate reached'],
)

# A map is described by plain data, interpreted twice: by the model and by the code under test

_factor = st.one_of(st.sampled_from([1., -1., 2., .5, -2., 3.]), gen.nonzero_scalar.filter(lambda x: .02 <= abs(x) <= 20))
_linear = st.one_of(
    st.tuples(st.just('rotation'), gen.angle),
    st.tuples(st.just('scale'), _factor),
    st.tuples(st.just('scale2'), _factor, _factor),
    st.tuples(st.sampled_from(['parity', 'xreflection', 'yreflection', 'identity'])),
)
_affine = st.one_of(
    _linear,
    st.tuples(st.just('translation'), gen.point_tame),
    st.tuples(st.just('rotation_at'), gen.point_tame, gen.angle),
    st.tuples(st.just('screen'), gen.positive),
)


def model(m, p):
    name = m[0]
    x, y = p
    if name == 'rotation':
        return num.rotate(p, m[1])
    if name == 'scale':
        return (x * m[1], y * m[1])
    if name == 'scale2':
        return (x * m[1], y * m[2])
    if name == 'parity':
        return (-x, -y)
    if name == 'xreflection':
        return (-x, y)
    if name == 'yreflection':
        return (x, -y)
    if name == 'identity':
        return p
    if name == 'translation':
        return num.add(p, m[1])
    if name == 'rotation_at':
        return num.rotate(p, m[2], m[1])
    if name == 'screen':
        return (x, m[1] - y)
    raise NotImplementedError


def build(m, linear):
    name = m[0]
    cls = Transformation2D if linear else AffineTransformation2D
    if name == 'rotation':
        return cls.Rotation(m[1])
    if name == 'scale':
        return cls.Scale(m[1])
    if name == 'scale2':
        return cls.Scale(m[1], m[2])
    if name in ('parity', 'xreflection', 'yreflection'):
        if linear:
            return {'parity': cls.Parity, 'xreflection': cls.XReflection, 'yreflection': cls.YReflection}[name]()
        sx, sy = {'parity': (-1, -1), 'xreflection': (-1, 1), 'yreflection': (1, -1)}[name]
        return cls.Scale(sx, sy)
    if name == 'identity':
        return cls.Identity()
    if name == 'translation':
        return cls.Translation(Vector2D(m[1]))
    if name == 'rotation_at':
        return cls.RotationAt(Vector2D(m[1]), m[2])
    if name == 'screen':
        return cls.Screen(m[1])
    raise NotImplementedError


_samples = [(0., 0.), (1., 0.), (0., 1.), (1., 1.), (-3., 7.)]


def apply_all(maps, p):
    """Image by the maps, first one first, and the largest coordinate reached"""
    scale = 1.
    for m in maps:
        scale = max(scale, abs(p[0]), abs(p[1]))
        p = model(m, p)
        if m[0] in ('translation', 'rotation_at'):
            scale = max(scale, *map(abs, m[1]))
    return p, max(scale, abs(p[0]), abs(p[1]))


def factor_bound(maps):
    """Largest amplification of an error made at any step"""
    bound = 1.
    for m in maps:
        if m[0] in ('scale', 'scale2'):
            bound *= max(1., *map(abs, m[1:]))
    return bound


def ensure_map(transformation, maps, points, what):
    amplification = factor_bound(maps)
    for p in list(points) + _samples:
        expected, scale = apply_all(maps, p)
        scale *= amplification
        ensure_point(transformation * Vector2D(p), expected, '{} of {} at {}'.format(what, maps, p), scale=scale, rtol=1e-11, atol=1e-9)


def is_type_sound(transformation, linear, what):
    """The type drives how lengths and identities are handled: it must agree with the matrix"""
    a = transformation.array
    (m00, m01), (m10, m11) = a[:2, :2]
    t = transformation.type
    T = TransformationType
    ensure(isinstance(t, T), '{}: {!r} is not a type', what, t)
    translated = not linear and bool(a[:2, 2].any())
    tol = 1e-9
    def like(*values):
        return all(abs(x - y) <= tol * max(1, abs(y)) for x, y in zip((m00, m01, m10, m11), values))
    if t == T.Identity:
        ok = like(1, 0, 0, 1) and not translated
    elif t == T.Parity:
        ok = like(-1, 0, 0, -1) and not translated
    elif t == T.XParity:
        ok = like(-1, 0, 0, 1) and not translated
    elif t == T.YParity:
        ok = like(1, 0, 0, -1) and not translated
    elif t == T.Rotation:
        ok = abs(m00 - m11) < tol and abs(m01 + m10) < tol and abs(m00 * m11 - m01 * m10 - 1) < tol
    elif t == T.Scale:
        ok = like(m00, 0, 0, m00)
    elif t == T.Shear:
        ok = like(m00, 0, 0, m11) and not translated
    elif t == T.Translation:
        ok = like(1, 0, 0, 1)
    else:
        ok = True
    ensure(ok, '{}: type {} does not agree with the matrix {}', what, t, a.tolist())
    ensure(transformation.is_identity == (t == T.Identity), 'is_identity')


def length(transformation, value, what):
    """Lengths: scaled like distances, or refused"""
    a = transformation.array
    (m00, m01), (m10, m11) = a[:2, :2]
    try:
        image = transformation * value
    except ValueError:
        ensure(transformation.type in (TransformationType.Generic, TransformationType.Shear), '{}: length refused for the type {}', what, transformation.type)
        return 'refused'
    for ux, uy in ((1, 0), (0, 1), (.6, .8)):
        n = math.hypot(m00 * ux + m01 * uy, m10 * ux + m11 * uy)
        ensure_close(image, n * value, '{}: length {} along {}'.format(what, value, (ux, uy)), scale=value)
    return 'scaled'


####################################################################################################

@check.facet(st.tuples(_linear, gen.points(1, 3), gen.positive), quick=1500)
def linear_maps(case):
    m, points, value = case
    t = build(m, True)
    ensure_map(t, [m], points, 'linear map')
    is_type_sound(t, True, m)
    label = length(t, value, m)
    ensure(t.dimension == 2 and t.size == 2, 'dimension')
    if m[0] == 'scale2' and abs(m[1]) != abs(m[2]):
        ensure(label == 'refused', 'an anisotropic scaling accepts a length')
    if m[0] in ('rotation', 'scale', 'identity', 'parity', 'xreflection', 'yreflection'):
        ensure(label == 'scaled', '{} refuses a length', m)
    return m[0] if m[0] != 'identity' and any(map(any, points)) else None


@check.facet(st.tuples(_affine, gen.points(1, 3), gen.positive), quick=2500)
def affine_maps(case):
    m, points, value = case
    t = build(m, False)
    ensure_map(t, [m], points, 'affine map')
    is_type_sound(t, False, m)
    label = length(t, value, m)
    if m[0] in ('rotation', 'scale', 'identity', 'parity', 'xreflection', 'yreflection', 'translation'):
        ensure(label == 'scaled', '{} refuses a length', m)
    ensure(t.dimension == 2 and t.size == 3, 'dimension')
    ensure([float(x) for x in t.array[2]] == [0, 0, 1], 'last row of {}', m)
    for p in points:
        h = t * HomogeneousVector2D(Vector2D(p))
        expected, scale = apply_all([m], p)
        ensure_point(h.to_vector(), expected, 'homogeneous image by {}'.format(m), scale=scale * factor_bound([m]))
        # the weight is kept, a null one is for a direction
        h = HomogeneousVector2D(Vector2D(p))
        h.w = value
        h = h.clone() if value > 1 else h
        ensure(h.w == value, 'weight of a copy')
        weighted = (p[0] / value, p[1] / value)
        ensure_point(h.to_vector(), weighted, 'vector of {} with the weight {}'.format(p, value))
        h = t * h
        expected, scale = apply_all([m], weighted)
        ensure(h.w == value, 'weight {} instead of {}', h.w, value)
        ensure_point(h.to_vector(), expected, 'image of {} with the weight {} by {}'.format(p, value, m), scale=scale * factor_bound([m]) * max(1, 1 / value))
        d = HomogeneousVector2D(Vector2D(p))
        d.w = 0
        expected = num.sub(apply_all([m], p)[0], apply_all([m], (0., 0.))[0])
        d = t * d
        ensure(d.w == 0, 'a direction becomes a point')
        ensure_point(d.to_vector(), expected, 'image of the direction {} by {}'.format(p, m), scale=apply_all([m], p)[1] * factor_bound([m]))
    # parts
    ox, oy = model(m, (0., 0.))
    ensure(num.pclose([float(x) for x in t.translation_part], (ox, oy), scale=1e3, rtol=1e-10), 'translation part of {}', m)
    for i, e in enumerate(((1., 0.), (0., 1.))):
        column = num.sub(model(m, e), (ox, oy))
        ensure(num.pclose([float(x) for x in t.matrix_part[:, i]], column, scale=1e3, rtol=1e-10), 'matrix part of {}', m)
    if m[0] == 'rotation_at':
        c = Vector2D(m[1])
        ensure_point(t * c, m[1], 'a rotation fixes its centre', rtol=1e-10)
    return m[0] if m[0] != 'identity' and any(map(any, points)) else None


_program = st.tuples(st.booleans(), st.integers(1, 6)).flatmap(lambda t: st.tuples(
    st.just(t[0]), st.lists(_linear if t[0] else _affine, min_size=t[1], max_size=t[1]),
    st.lists(st.sampled_from(['*', '*=', 'copy', 'list']), min_size=t[1], max_size=t[1]), gen.points(1, 2), gen.positive))


@check.facet(_program, quick=3000, shards=2)
def compositions(case):
    linear, maps, ops, points, value = case
    cls = Transformation2D if linear else AffineTransformation2D
    # ``a * b`` applies b then a; ``a *= b`` applies a then b
    product = build(maps[0], linear)
    done = [maps[0]]
    for m, op in zip(maps[1:], ops[1:]):
        t = build(m, linear)
        before = t.to_list()
        frozen, frozen_list = product, product.to_list()
        frozen_type = product.type
        if op == '*=':
            product *= t
            ensure(product is frozen, '*= replaced the transformation')
            done = done + [m]
        else:
            product = product * t
            ensure(product is not frozen, '* returned its operand')
            ensure(frozen.to_list() == frozen_list and frozen.type == frozen_type, '* changed its left operand')
            done = [m] + done
            if op == 'copy':
                product = cls(product)
            elif op == 'list':
                product = cls(product.to_list())
        ensure(t.to_list() == before, 'composition changed its right operand')
        ensure(isinstance(product, cls), 'type of the product')
        ensure_map(product, done, points, 'composition ({})'.format(op))
        is_type_sound(product, linear, done)
    label = length(product, value, done)
    if len(maps) > 1:
        # the matrix says it exactly
        a = product.array
        if a[0, 1] == a[1, 0] == 0 and (a[0, 0] == a[1, 1] or abs(a[0, 0]) == abs(a[1, 1]) == 1):
            translated = not linear and bool(a[:2, 2].any())
            if not translated:
                ensure(label == 'scaled', '{}: type {} refuses a length but the matrix is {}', done, product.type, a.tolist())
    # application to a product is the product of the applications
    if len(maps) > 1:
        a, b = build(maps[0], linear), build(maps[1], linear)
        for p in points:
            expected, scale = apply_all([maps[1], maps[0]], p)
            ensure_point(a * (b * Vector2D(p)), expected, 'successive applications of {}'.format(maps[:2]),
                         scale=scale * factor_bound(maps[:2]))
    useful = [m for m in maps if m[0] != 'identity']
    if not useful or not any(map(any, points)):
        return None
    return ('linear ' if linear else 'affine ') + ('single' if len(useful) == 1 else 'composed')


@check.facet(st.tuples(gen.point_tame, gen.angle, st.lists(gen.decimal, min_size=4, max_size=4), st.lists(gen.decimal, min_size=6, max_size=6)), quick=1000)
def generic_matrices(case):
    p, angle, l4, l6 = case
    t = Transformation2D(list(l4))
    ensure_point(t * Vector2D(p), (l4[0] * p[0] + l4[1] * p[1], l4[2] * p[0] + l4[3] * p[1]), 'generic linear map',
                 scale=max(map(abs, l4)) * num.magnitude_of(p), rtol=1e-12)
    is_type_sound(t, True, l4)
    ensure([float(x) for x in t.to_list()] == list(l4), 'to_list')
    l9 = list(l6) + [0., 0., 1.]
    t = AffineTransformation2D(l9)
    ensure_point(t * Vector2D(p), (l6[0] * p[0] + l6[1] * p[1] + l6[2], l6[3] * p[0] + l6[4] * p[1] + l6[5]), 'generic affine map',
                 scale=max(map(abs, l6)) * num.magnitude_of(p), rtol=1e-12)
    is_type_sound(t, False, l9)
    copy = AffineTransformation2D(t)
    copy *= AffineTransformation2D.Translation(Vector2D(1, 2))
    copy.array[0, 0] += 1
    for other in (AffineTransformation2D(t), AffineTransformation2D(t.array)):
        other.translation_part[...] = (7., -9.)
        other.matrix_part[...] = ((3., 1.), (2., 5.))
    ensure([float(x) for x in t.to_list()] == l9, 'a copy shares its matrix with the source')
    for cls, bad in ((Transformation2D, l9), (AffineTransformation2D, l4), (Transformation2D, t), (AffineTransformation2D, t.array[:2])):
        try:
            cls(bad)
        except IncompatibleArrayDimension:
            pass
        else:
            fail('{} accepts an array of a wrong dimension', cls.__name__)
    # Identity is a neutral element
    for identity, u in ((AffineTransformation2D.Identity(), t), (Transformation2D.Identity(), Transformation2D(list(l4)))):
        before = u.to_list()
        for v in (identity * u, u * identity):
            ensure(v.to_list() == before, 'identity is not neutral')
        u *= identity
        ensure(u.to_list() == before, 'identity is not neutral')
        identity *= u
        ensure(identity.to_list() == before, 'identity is not neutral')
        is_type_sound(identity, len(before) == 4, 'identity *= ')
    return 'generic'

