"""Generators of polygons and exact reference predicates, independent of the code under test

All the coordinates are floats, taken exactly as rationals by the predicates.
"""

import math
from fractions import Fraction

from hypothesis import assume, strategies as st

from . import gen, num


def F(p):
    return (Fraction(p[0]), Fraction(p[1]))


def orient(a, b, c):
    """Exact sign of the turn a b c"""
    (ax, ay), (bx, by), (cx, cy) = F(a), F(b), F(c)
    d = (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)
    return (d > 0) - (d < 0)


def on_segment(p, a, b):
    """p belongs to the closed segment [a, b]"""
    return (orient(a, b, p) == 0
            and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def segments_share_a_point(a, b, c, d):
    o1, o2, o3, o4 = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
    if o1 * o2 < 0 and o3 * o4 < 0:
        return True
    return on_segment(c, a, b) or on_segment(d, a, b) or on_segment(a, c, d) or on_segment(b, c, d)


def is_simple(points):
    """Edges only touch at the vertex shared by two consecutive edges (null edges are ignored)"""
    vertices = [p for i, p in enumerate(points) if p != points[i - 1]]
    n = len(vertices)
    if n < 3:
        return False
    edges = [(vertices[i], vertices[(i + 1) % n]) for i in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            (a, b), (c, d) = edges[i], edges[j]
            if j == i + 1 or (i == 0 and j == n - 1):
                if j == i + 1 and (on_segment(d, a, b) or on_segment(a, c, d)):
                    return False
                if i == 0 and j == n - 1 and (on_segment(c, a, b) or on_segment(b, c, d)):
                    return False
            elif segments_share_a_point(a, b, c, d):
                return False
    return True


def is_convex(points):
    """All the turns of a simple polygon have the same direction (flat turns are ignored)"""
    vertices = [p for i, p in enumerate(points) if p != points[i - 1]]
    n = len(vertices)
    signs = {orient(vertices[i], vertices[(i + 1) % n], vertices[(i + 2) % n]) for i in range(n)} - {0}
    return len(signs) == 1


def signed_area_barycenter(points):
    """Exact, by signed decomposition in triangles from the first vertex"""
    vertices = [F(p) for p in points]
    ox, oy = vertices[0]
    area = Fraction(0)
    mx = my = Fraction(0)
    for (ax, ay), (bx, by) in zip(vertices[1:], vertices[2:]):
        t = ((ax - ox) * (by - oy) - (ay - oy) * (bx - ox)) / 2
        area += t
        mx += t * (ox + ax + bx) / 3
        my += t * (oy + ay + by) / 3
    return area, ((mx / area, my / area) if area else None)


def on_boundary(p, points):
    return any(on_segment(p, points[i - 1], points[i]) for i in range(len(points)))


def is_inside(p, points):
    """Even-odd rule, exact, for a point off the boundary"""
    x, y = F(p)
    inside = False
    for i in range(len(points)):
        (ax, ay), (bx, by) = F(points[i - 1]), F(points[i])
        if (ay > y) != (by > y):
            xi = ax + (y - ay) * (bx - ax) / (by - ay)
            if x < xi:
                inside = not inside
    return inside


def hull(points):
    """Strictly convex hull, counter-clockwise (monotone chain), exact"""
    vertices = sorted(set(points))
    if len(vertices) < 3:
        return vertices
    def chain(sequence):
        stack = []
        for p in sequence:
            while len(stack) > 1 and orient(stack[-2], stack[-1], p) <= 0:
                stack.pop()
            stack.append(p)
        return stack
    lower, upper = chain(vertices), chain(vertices[::-1])
    return lower[:-1] + upper[:-1]


####################################################################################################
# Generators

@st.composite
def monotone_polygon(draw):
    """Polygon monotone along one axis, whose vertices are on a lattice: many collinear vertices and level vertices"""
    n = draw(st.integers(1, 4))
    m = draw(st.integers(1, 4))
    width = max(n, m) + draw(st.integers(1, 3))
    xl = sorted(draw(st.lists(st.integers(1, width), min_size=n, max_size=n, unique=True)))
    xu = sorted(draw(st.lists(st.integers(1, width), min_size=m, max_size=m, unique=True)))
    lower = [(float(x), float(-draw(st.integers(1, 4)))) for x in xl]
    upper = [(float(x), float(draw(st.integers(1, 4)))) for x in xu]
    points = [(0., 0.)] + lower + [(float(width + 1), 0.)] + upper[::-1]
    if draw(st.booleans()):
        points = [(y, x) for x, y in points]
    ox, oy = draw(gen.point_lattice)
    return [(x + ox, y + oy) for x, y in points]


@st.composite
def star_polygon(draw):
    n = draw(st.integers(3, 9))
    gaps = draw(st.lists(st.integers(1, 10), min_size=n, max_size=n))
    total = sum(gaps)
    assume(all(2 * g < total for g in gaps))
    angle = draw(gen.angle)
    cx, cy = draw(gen.point_tame)
    points = []
    for g in gaps:
        angle += 360 * g / total
        r = draw(st.integers(32, 640)) / 32
        x, y = num.polar(r, angle)
        points.append((round((cx + x) * 64) / 64, round((cy + y) * 64) / 64))
    assume(is_simple(points))
    return points


@st.composite
def untangled_polygon(draw):
    """Random vertices whose order is untangled by exchanging crossing edges"""
    points = draw(st.lists(gen.point_lattice, min_size=4, max_size=9, unique=True))
    for _ in range(60):
        n = len(points)
        for i in range(n):
            for j in range(i + 2, n):
                if i == 0 and j == n - 1:
                    continue
                if segments_share_a_point(points[i], points[i + 1], points[j], points[(j + 1) % n]):
                    points[i + 1:j + 1] = points[i + 1:j + 1][::-1]
                    break
            else:
                continue
            break
        else:
            break
    assume(is_simple(points))
    return points


@st.composite
def convex_polygon(draw):
    points = hull(draw(st.lists(st.one_of(gen.point_lattice, gen.point_tame), min_size=3, max_size=10, unique=True)))
    assume(len(points) >= 3)
    return points


@st.composite
def simple_polygon(draw):
    """Simple polygon, of any orientation and starting vertex"""
    points = draw(st.one_of(monotone_polygon(), star_polygon(), untangled_polygon(), convex_polygon()))
    k = draw(st.integers(0, len(points) - 1))
    points = points[k:] + points[:k]
    if draw(st.booleans()):
        points = points[::-1]
    if draw(st.integers(0, 7)) == 0:
        # flat angle or duplicated vertex
        i = draw(st.integers(0, len(points) - 1))
        a, b = points[i - 1], points[i]
        points.insert(i, a if draw(st.booleans()) else ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2))
    return points


@st.composite
def triangle(draw, base=None):
    base = base or st.one_of(gen.point_lattice, gen.point_tame)
    p = [draw(base) for _ in range(3)]
    # at least 1e-2 from flatness, by construction in the usual cases
    if abs(num.cross(num.sub(p[1], p[0]), num.sub(p[2], p[0]))) < 1e-2:
        p[2] = num.add(p[2], (1., 2.))
        assume(abs(num.cross(num.sub(p[1], p[0]), num.sub(p[2], p[0]))) >= 1e-2)
    return p


def is_dyadic(points):
    """The cross products of differences are exact in floating point"""
    return all(x * 64 == round(x * 64) and abs(x) < 2**18 for p in points for x in p)


def robust(points):
    """Every turn made by an edge and a vertex is computed with the right sign by floating point arithmetic"""
    if is_dyadic(points):
        return True
    scale = max(1., max(abs(x) for p in points for x in p))
    n = len(points)
    for i in range(n):
        a, b = points[i - 1], points[i]
        for c in points:
            if c == a or c == b:
                continue
            d = abs((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]))
            if d < 1e-9 * scale * scale and not (a[0] == b[0] == c[0] or a[1] == b[1] == c[1]):
                return False
    return True
