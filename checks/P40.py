"""P40 — Arrow heads are at the tip, along the direction, with the requested size"""

import math

from hypothesis import strategies as st

from Patro.GeometryEngine.Shape.ArrowHead import TriangularCurvyHead, TriangularHead
from Patro.GeometryEngine.Vector import Vector2D
from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene

from pbt import gen, num, paths
from pbt.harness import Check, ensure, fail
from pbt.num import xy

check = Check(
    'P40',
    rule='Hypothesis generates tips, directions of any length, lengths, half widths, axial offsets, depths of the curves and sides.  The points, outlines, areas, boxes and scene items of the heads are compared with '
         'elementary formulas in the frame of the direction, a head is compared with its mirror image.  A case is non-trivial when the direction is oblique and an option is used.',
    assumptions=['lengths and widths are greater than zero, axial offsets do not reach the tip'],
)

_point = st.one_of(gen.point_lattice, gen.point_tame)
_size = st.one_of(st.integers(1, 40).map(lambda i: i / 4), st.integers(1, 99999).map(lambda i: i / 1000))
_sides = st.sampled_from([(True, True), (True, True), (True, False), (False, True)])

head = st.tuples(_point, _point.filter(lambda p: num.norm(p) > 1e-3), _size, _size, st.one_of(st.just(0), st.just(0), st.integers(-9, 20).map(lambda i: i / 10)), _sides, st.booleans())


def frame_of(case):
    """Function from (along, left) to the plane"""
    tip, direction, length, width, offset, sides, _ = case
    u = num.mul(direction, 1 / num.norm(direction))
    return lambda along, left: (tip[0] + along * u[0] - left * u[1], tip[1] + along * u[1] + left * u[0])


def arguments(case):
    tip, direction, length, width, offset, sides, named = case
    offset = offset * length
    point, vector = Vector2D(*tip), Vector2D(*direction)
    kwargs = {}
    if offset or named:
        kwargs['axial_offset'] = offset
    if sides != (True, True) or named:
        kwargs['left_side'], kwargs['right_side'] = sides
    return point, vector, offset, kwargs


def atol_of(case):
    return 1e-9 * (1 + num.magnitude_of(case[0]) + 2 * (case[2] + case[3]) * (1 + abs(case[4])))


def check_points(h, case, offset):
    tip, direction, length, width, _, (left, right), _ = case
    at, atol = frame_of(case), atol_of(case)
    same = lambda v, p, what: ensure(num.dist(xy(v), p) <= atol, '{} is {} instead of {}', what, v, p)
    same(h.anchor_point, tip, 'anchor')
    same(h.tip_point, tip, 'tip')
    same(h.direction, num.mul(direction, 1 / num.norm(direction)), 'direction')
    same(h.back_tip_point, at(-length, 0), 'back')
    same(h.offseted_back_tip_point, at(-length - offset, 0), 'offset back')
    if left:
        same(h.left_point, at(-length, width), 'left point')
    else:
        ensure(h.left_point is None, 'left point')
    if right:
        same(h.right_point, at(-length, -width), 'right point')
    else:
        ensure(h.right_point is None, 'right point')
    ensure((h.length, h.width, h.axial_offset, h.has_axial_offset) == (length, width, offset, offset != 0), 'sizes')
    ensure((h.left_side, h.right_side, h.both_side, h.only_left, h.only_right) == (left, right, left and right, left and not right, right and not left), 'sides')
    ensure(abs(h.angle - 2 * math.degrees(math.atan2(width, length))) < 1e-9, 'angle {}', h.angle)


def outline(case, offset):
    """Vertices from the tip"""
    _, _, length, width, _, (left, right), _ = case
    at = frame_of(case)
    points = [at(0, 0)]
    if left:
        points.append(at(-length, width))
    if offset or not (left and right):
        points.append(at(-length - offset, 0))
    if right:
        points.append(at(-length, -width))
    return points


def same_cycle(actual, expected, atol):
    n = len(expected)
    if len(actual) != n:
        return False
    for candidate in (expected, expected[::-1]):
        for i in range(n):
            if all(num.dist(p, q) <= atol for p, q in zip(actual, candidate[i:] + candidate[:i])):
                return True
    return False


def label_of(case):
    return 'option' if 0 not in case[1] and (case[4] or case[5] != (True, True)) else None


@check.facet(head, quick=2500)
def triangular(case):
    tip, direction, length, width, _, sides, _ = case
    point, vector, offset, kwargs = arguments(case)
    h = TriangularHead(point, vector, length, width, **kwargs)
    ensure(xy(point) == tip and xy(vector) == direction, 'arguments are changed')
    check_points(h, case, offset)
    expected, atol = outline(case, offset), atol_of(case)
    points = [xy(p) for p in h.points]
    ensure(same_cycle(points, expected, atol), 'outline {} instead of {}', points, expected)
    area = sum(sides) * width * (length + offset) / 2
    ensure(abs(h.area - area) <= 1e-9 * (1 + area) + 4 * atol * (length + width + abs(offset)), 'area {} instead of {}', h.area, area)
    box = h.bounding_box
    for interval, k in ((box.x, 0), (box.y, 1)):
        ensure(abs(interval.inf - min(p[k] for p in expected)) <= atol and abs(interval.sup - max(p[k] for p in expected)) <= atol, 'box {}', box)
    scene = GraphicScene()
    item = scene.add_geometry(h, GraphicPathStyle())
    items = list(scene)
    ensure(len(items) == 1 and same_cycle([xy(p) for p in items[0].positions], expected, atol), 'item {} of {}', items, item)
    return label_of(case)


def chain_of(case, offset, depth):
    """Pieces from the tip"""
    _, _, length, width, _, (left, right), _ = case
    at = frame_of(case)
    points = outline(case, offset)
    pieces = [[p, q] for p, q in zip(points, points[1:] + points[:1])]
    # the middle of the side, moved by depth × its length outwards
    control = lambda side: at(-length / 2 + width * depth, side * (width / 2 + length * depth))
    if left:
        pieces[0].insert(1, control(1))
    if right:
        pieces[-1].insert(1, control(-1))
    return pieces


def samples(pieces):
    return [[paths.casteljau(p, t) for t in (0, .25, .5, .75, 1)] for p in pieces]


_depth = st.one_of(st.sampled_from([0, .1, .25, .5]), st.integers(-900, 900).map(lambda i: i / 1000))


@check.facet(st.tuples(head, _depth), quick=2500)
def curvy(case):
    data, depth = case
    tip, direction, length, width, _, sides, _ = data
    point, vector, offset, kwargs = arguments(data)
    h = TriangularCurvyHead(point, vector, length, width, depth, **kwargs)
    ensure(xy(point) == tip and xy(vector) == direction and h.curve_depth == depth, 'arguments are changed')
    check_points(h, data, offset)
    atol = atol_of(data) * (1 + abs(depth))
    expected = chain_of(data, offset, depth)
    for side, name in enumerate(('left_curved_point', 'right_curved_point')):
        actual = getattr(h, name)
        if sides[side]:
            control = expected[-side][1]
            ensure(num.dist(xy(actual), control) <= atol, '{} {} instead of {}', name, actual, control)
        else:
            ensure(actual is None, name)
    ensure(h.is_closed, 'the outline is open')
    actual = []
    for part in h:
        geometry = part.geometry
        actual.append([paths.sample_geometry(geometry, t) for t in (0, .25, .5, .75, 1)])
    actual = [s for s in actual if any(num.dist(p, s[0]) > atol for p in s)]
    wanted = samples(expected)
    backward = [s[::-1] for s in wanted[::-1]]
    matches = lambda a, b: len(a) == len(b) and any(all(num.dist(p, q) <= 4 * atol for s, t in zip(a, b[i:] + b[:i]) for p, q in zip(s, t)) for i in range(len(b)))
    ensure(matches(actual, wanted) or matches(actual, backward), 'outline {} instead of {}', actual, wanted)
    scene = GraphicScene()
    scene.add_geometry(h, GraphicPathStyle())
    ensure(len(scene) >= len(wanted), '{} items in the scene', len(scene))
    return label_of(data)


@check.facet(st.tuples(head, st.booleans()), quick=100)
def no_side(case):
    data, curvy = case
    point, vector, _, _ = arguments(data)
    try:
        if curvy:
            TriangularCurvyHead(point, vector, data[2], data[3], .1, left_side=False, right_side=False)
        else:
            TriangularHead(point, vector, data[2], data[3], left_side=False, right_side=False)
    except ValueError:
        return 'refused'
    fail('a head without side is accepted')
