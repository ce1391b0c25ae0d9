"""Affine maps: generated as data, applied in plain floats, built with the library"""

import numpy as np

from hypothesis import strategies as st

from Patro.GeometryEngine.Transformation import AffineTransformation2D, Transformation2D
from Patro.GeometryEngine.Vector import Vector2D

from . import gen, num

_factor = st.sampled_from([2., -1., -2., 3., .5, 1.25])

similarity = st.one_of(
    st.sampled_from([('mirror',), ('x_mirror',), ('y_mirror',), ('identity',), ('affine identity',)]),
    st.tuples(st.just('rotate'), gen.angle),
    st.tuples(st.just('affine rotate'), gen.angle),
    st.tuples(st.just('scale'), _factor, st.none()),
    st.tuples(st.just('scale'), _factor, st.none()),
    st.tuples(st.just('translation'), gen.point_tame),
    st.tuples(st.just('rotation_at'), gen.point_lattice, gen.angle),
    st.tuples(st.just('matrix'), st.sampled_from([(0., 1., 1., 0.), (3., -4., 4., 3.), (0., -2., 2., 0.), (.6, .8, .8, -.6)])),
)
shear = st.one_of(
    st.tuples(st.just('scale'), _factor, _factor).filter(lambda m: abs(m[1]) != abs(m[2])),
    st.tuples(st.just('matrix'), st.sampled_from([(1., 1., 0., 1.), (2., -1., 1., 1.), (1., 0., -.5, 1.), (1., 2., 3., 1.), (.5, .25, -1., 3.)])),
)


def image(m, p):
    name = m[0]
    x, y = p
    if name == 'mirror':
        return (-x, -y)
    if name == 'x_mirror':
        return (-x, y)
    if name == 'y_mirror':
        return (x, -y)
    if name in ('rotate', 'affine rotate'):
        return num.rotate(p, m[1])
    if name == 'scale':
        return (x * m[1], y * (m[1] if m[2] is None else m[2]))
    if name == 'translation':
        return num.add(p, m[1])
    if name == 'rotation_at':
        return num.rotate(p, m[2], m[1])
    if name == 'matrix':
        a, b, c, d = m[1]
        return (a * x + b * y, c * x + d * y)
    return p


def build(m):
    name = m[0]
    if name == 'mirror':
        return Transformation2D.Parity()
    if name == 'x_mirror':
        return Transformation2D.XReflection()
    if name == 'y_mirror':
        return Transformation2D.YReflection()
    if name == 'rotate':
        return Transformation2D.Rotation(m[1])
    if name == 'affine rotate':
        return AffineTransformation2D.Rotation(m[1])
    if name == 'scale':
        return Transformation2D.Scale(m[1]) if m[2] is None else Transformation2D.Scale(m[1], m[2])
    if name == 'translation':
        return AffineTransformation2D.Translation(Vector2D(m[1]))
    if name == 'rotation_at':
        return AffineTransformation2D.RotationAt(Vector2D(m[1]), m[2])
    if name == 'matrix':
        a, b, c, d = m[1]
        return Transformation2D(np.array(((a, b), (c, d))))
    return AffineTransformation2D.Identity() if name.startswith('affine') else Transformation2D.Identity()


def is_similarity(m):
    if m[0] == 'scale':
        return m[2] is None or abs(m[1]) == abs(m[2])
    if m[0] == 'matrix':
        a, b, c, d = m[1]
        return abs(a * b + c * d) < 1e-9 and abs(a * a + c * c - b * b - d * d) < 1e-9
    return True


def is_reflection(m):
    if m[0] == 'scale':
        return m[2] is not None and m[1] * m[2] < 0
    if m[0] == 'matrix':
        a, b, c, d = m[1]
        return a * d < b * c
    return m[0] in ('x_mirror', 'y_mirror')
