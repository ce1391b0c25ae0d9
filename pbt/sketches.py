"""Generation of sketches, and a model of their evaluation

A sketch is a list of dictionaries (plain data) which give the arguments of the operations; expressions are texts or formulas.  The model gives the position of each
point and a bound of its rounding error, so that ill-conditioned constructions are not generated.

"""

import math

from hypothesis import strategies as st

from . import formula

EPSILON = 1e-12
MAX_ERROR = 1e-8

POINT_NAMES = ['A', 'A1', 'A10', 'A11', 'B', 'AB', 'Bp', 'Bpp', 'a', 'a1', 'b', 'c', 'bp', 'E5', 'C', 'D', 'E', 'e5', 'F', 'Line', 'Spl', 'x', 'Z1', 'Z2', 'Z3', 'Z4', 'Z5', 'Z6', 'Z7', 'Z8']
MEASUREMENTS = ['height', 'hip_circ', 'hip', 'k', 'K', 'e5', '@a', '@ab', '@hip', '@Line_A_B', '@seam']

STYLES = ['NoPen', 'SolidLine', 'DashLine', 'DotLine', 'DashDotLine', 'DashDotDotLine']

small = st.one_of(st.integers(-12, 12), st.integers(-4000, 4000).map(lambda i: i / 100))
positive = st.one_of(st.integers(1, 20), st.integers(50, 4000).map(lambda i: i / 100))
angles = st.one_of(st.integers(-24, 24).map(lambda i: 15 * i), st.integers(-36000, 36000).map(lambda i: i / 100))


def interval(tree, get):
    """Value and error of a formula"""
    kind = tree[0]
    if kind == 'n':
        return float(tree[1]), 0
    if kind == 'v':
        return get(tree[1])
    x, ex = interval(tree[1], get)
    if kind == 'p':
        return x, ex
    if kind == 'u':
        return -x, ex
    y, ey = interval(tree[2], get)
    if kind in '+-':
        value, error = (x + y if kind == '+' else x - y), ex + ey
        scale = abs(x) + abs(y)
    elif kind == '*':
        value, error = x * y, abs(x) * ey + abs(y) * ex + ex * ey
        scale = abs(value)
    elif kind == '/':
        if abs(y) < 1e-3:
            return math.nan, math.inf
        value = x / y
        error = (ex + abs(value) * ey) / abs(y) * 2
        scale = abs(value)
    else:
        value, error = x * x, 3 * abs(x) * ex
        scale = value
    return value, error + EPSILON * scale


class Model:

    def __init__(self, measurements):
        self.measurements = dict(measurements)
        self.points = {}   # name -> (x, y, error)
        self.current = None

    def get(self, name):
        if name in self.measurements:
            return float(self.measurements[name]), 0
        if name == 'CurrentLength':
            return self.current
        kind, a, b = name.split('_')
        length, dx, dy, error = self.vector(a, b)
        if kind == 'Line':
            return length, error
        angle = math.degrees(math.atan2(dy, dx))
        if length < .1 or abs(angle) > 179.9:
            return math.nan, math.inf
        return angle, 60 * error / length * 2 + EPSILON * 180

    def vector(self, a, b):
        xa, ya, ea = self.points[a]
        xb, yb, eb = self.points[b]
        dx, dy = xb - xa, yb - ya
        length = math.hypot(dx, dy)
        return length, dx, dy, ea + eb + EPSILON * (length + abs(xa) + abs(ya))

    def expression(self, value):
        if isinstance(value, (int, float)):
            return float(value), 0
        return interval(value, self.get)

    def polar(self, angle, length):
        a, ea = self.expression(angle)
        r, er = self.expression(length)
        if not (abs(a) < 1e5 and abs(r) < 1e4):
            return None
        t = math.radians(a)
        return r * math.cos(t), r * math.sin(t), er + abs(r) * (ea / 50 + EPSILON * (1 + abs(a)))

    def direction(self, a, b):
        length, dx, dy, error = self.vector(a, b)
        self.current = (length, error)
        if length < .5:
            return None
        return dx / length, dy / length, 2 * error / length + EPSILON

    def evaluate(self, op):
        """Position (x, y, error) of a point, pair of control points of a spline, True for a line; None for an ill-conditioned operation"""
        try:
            result = getattr(self, op['class'])(op)
        finally:
            self.current = None
        if result is None or result is True:
            return result
        for x, y, e in (result if isinstance(result[0], tuple) else [result]):
            if not (abs(x) < 1e5 and abs(y) < 1e5 and e < MAX_ERROR):
                return None
        if 'name' in op:
            self.points[op['name']] = result
        return result

    def SinglePoint(self, op):
        x, ex = self.expression(op['x'])
        y, ey = self.expression(op['y'])
        return x, y, ex + ey

    def EndLinePoint(self, op):
        x, y, e = self.points[op['base_point']]
        offset = self.polar(op['angle'], op['length'])
        return offset and (x + offset[0], y + offset[1], e + offset[2] + EPSILON * (abs(x) + abs(y)))

    def AlongLinePoint(self, op):
        x, y, e = self.points[op['first_point']]
        direction = self.direction(op['first_point'], op['second_point'])
        if direction is None:
            return None
        length, error = self.expression(op['length'])
        return x + direction[0] * length, y + direction[1] * length, e + abs(length) * direction[2] + error + EPSILON * (abs(x) + abs(y))

    def NormalPoint(self, op):
        x, y, e = self.points[op['first_point']]
        direction = self.direction(op['first_point'], op['second_point'])
        offset = direction and self.polar(op['angle'], op['length'])
        if not offset:
            return None
        dx, dy = -direction[1], direction[0]
        ox, oy, error = offset
        return (x + dx * ox - dy * oy, y + dy * ox + dx * oy,
                e + error + math.hypot(ox, oy) * direction[2] * 2 + EPSILON * (abs(x) + abs(y)))

    def LineIntersectPoint(self, op):
        p = self.direction(op['point1_line1'], op['point2_line1'])
        q = self.direction(op['point1_line2'], op['point2_line2'])
        if p is None or q is None:
            return None
        cross = p[0] * q[1] - p[1] * q[0]
        if abs(cross) < .05:
            return None
        x1, y1, e1 = self.points[op['point1_line1']]
        x2, y2, e2 = self.points[op['point1_line2']]
        s = ((x2 - x1) * q[1] - (y2 - y1) * q[0]) / cross
        error = (e1 + e2 + (abs(x1 - x2) + abs(y1 - y2) + abs(s) + 1) * (p[2] + q[2])) / abs(cross)**2 * 4
        return x1 + s * p[0], y1 + s * p[1], error + EPSILON * (abs(x1) + abs(y1))

    def PointOfIntersection(self, op):
        x, _, e1 = self.points[op['first_point']]
        _, y, e2 = self.points[op['second_point']]
        return x, y, e1 + e2

    def PointOfContact(self, op):
        solutions, error = self.contact(op)
        if solutions is None or error > MAX_ERROR:
            return None
        inside = [t for t, d, x, y in solutions if d > -error]
        if len(inside) != 1 or any(abs(d) < 1e-3 for t, d, x, y in solutions):
            # ambiguous
            return None
        return next((x, y, error) for t, d, x, y in solutions if t == inside[0])

    def contact(self, op):
        """Solutions: abscissa, signed distance to the nearest end of the segment, coordinates"""
        a, b = op['first_point'], op['second_point']
        length, dx, dy, e1 = self.vector(a, b)
        direction = self.direction(a, b)
        if direction is None:
            return None, 0
        ux, uy, e2 = direction
        xa, ya, ea = self.points[a]
        xc, yc, ec = self.points[op['center']]
        r, er = self.expression(op['radius'])
        t0 = (xc - xa) * ux + (yc - ya) * uy
        h = (yc - ya) * ux - (xc - xa) * uy
        if not (0.1 < r < 1e4) or not abs(h) < .98 * r:
            return None, 0
        half = math.sqrt(r * r - h * h)
        scale = 1 + abs(xa) + abs(ya) + abs(xc) + abs(yc) + r
        error = (ea + ec + er + scale * (e2 + 10 * EPSILON)) * r / half * 20
        return [(t, min(t, length - t), xa + t * ux, ya + t * uy) for t in (t0 - half, t0 + half)], error

    def Line(self, op):
        return True

    def SimpleInteractiveSpline(self, op):
        result = []
        for i, point in ((1, 'first_point'), (2, 'second_point')):
            x, y, e = self.points[op[point]]
            offset = self.polar(op['angle{}'.format(i)], op['length{}'.format(i)])
            if offset is None:
                return None
            result.append((x + offset[0], y + offset[1], e + offset[2] + EPSILON * (abs(x) + abs(y))))
        return tuple(result)


OPERATIONS = ['SinglePoint', 'EndLinePoint', 'EndLinePoint', 'AlongLinePoint', 'AlongLinePoint', 'NormalPoint', 'NormalPoint', 'LineIntersectPoint', 'PointOfContact',
              'PointOfContact', 'PointOfIntersection', 'Line', 'SimpleInteractiveSpline', 'SimpleInteractiveSpline']
STYLED = ('EndLinePoint', 'AlongLinePoint', 'NormalPoint', 'Line', 'SimpleInteractiveSpline')


@st.composite
def sketches(draw, max_size=14):
    """A list of measurements and a list of operations"""
    n = draw(st.integers(1, 5))
    measurements = draw(st.lists(st.tuples(st.sampled_from(MEASUREMENTS), positive), min_size=n, max_size=n, unique_by=lambda m: m[0]))
    model = Model(measurements)
    free = list(draw(st.permutations(POINT_NAMES)))
    operations = []

    def add(op):
        if op['class'] in STYLED:
            op['line_style'] = draw(st.sampled_from(STYLES + [None]))
            op['line_color'] = draw(st.sampled_from(['#000000', '#ff0000', '#12aBcd', 'black', 'blue', 'darkgreen', None]))
        if op['class'] not in ('Line', 'SimpleInteractiveSpline'):
            op['name'] = free[-1]
            op['label_offset'] = (draw(small) / 10, draw(small) / 10)
        if model.evaluate(op) is not None:
            if 'name' in op:
                free.pop()
            operations.append(op)

    def expression(values, current=False):
        if draw(st.booleans()):
            return draw(values)
        names = list(model.points)
        quantities = list(model.measurements)
        for _ in range(3):
            a, b = draw(st.sampled_from(names)), draw(st.sampled_from(names))
            quantities.append('Line_{}_{}'.format(a, b))
            if a != b:
                quantities.append('AngleLine_{}_{}'.format(a, b))
        if current:
            quantities.append('CurrentLength')
        return draw(formula.trees(quantities, 4))

    def distinct(n):
        names = list(model.points)
        if len(names) < n:
            return None
        result = []
        for _ in range(n):
            name = names[draw(st.integers(0, len(names) - 1))]
            names.remove(name)
            result.append(name)
        return result

    add({'class': 'SinglePoint', 'x': draw(small), 'y': draw(small)})
    add({'class': 'SinglePoint', 'x': draw(small), 'y': draw(small)})
    for _ in range(draw(st.integers(1, max_size))):
        kind = draw(st.sampled_from(OPERATIONS))
        op = {'class': kind}
        if kind == 'SinglePoint':
            op.update(x=expression(small), y=expression(small))
        elif kind == 'EndLinePoint':
            op.update(base_point=distinct(1)[0], angle=expression(angles), length=expression(positive))
        elif kind == 'LineIntersectPoint':
            names = distinct(4) or (distinct(3) or [None, None, None]) + [list(model.points)[0]]
            if None in names or names[2] == names[3]:
                continue
            op.update(zip(('point1_line1', 'point2_line1', 'point1_line2', 'point2_line2'), names))
        else:
            names = distinct(2)
            if names is None:
                continue
            op.update(first_point=names[0], second_point=names[1])
            if kind == 'AlongLinePoint':
                op.update(length=expression(small, True))
            elif kind == 'NormalPoint':
                op.update(angle=expression(st.one_of(st.just(0), angles)), length=expression(small, True))
            elif kind == 'PointOfContact':
                center = draw(st.sampled_from(list(model.points)))
                op.update(center=center)
                if draw(st.booleans()):
                    # choose a point of the segment
                    x1, y1, _ = model.points[names[0]]
                    x2, y2, _ = model.points[names[1]]
                    x, y, _ = model.points[center]
                    t = draw(st.integers(1, 9)) / 10
                    op.update(radius=round(math.hypot(x1 + t * (x2 - x1) - x, y1 + t * (y2 - y1) - y), 3))
                else:
                    op.update(radius=expression(positive))
            elif kind == 'SimpleInteractiveSpline':
                op.update(angle1=expression(angles), length1=expression(positive), angle2=expression(angles), length2=expression(positive))
        add(op)
    return measurements, operations


def text(value):
    """Expression given to the library"""
    return formula.render(value) if isinstance(value, (tuple, list)) else value


EXPRESSIONS = ('x', 'y', 'angle', 'length', 'radius', 'angle1', 'length1', 'angle2', 'length2')
REFERENCES = ('base_point', 'first_point', 'second_point', 'point1_line1', 'point2_line1', 'point1_line2', 'point2_line2', 'center')


def used_points(op, measurements):
    """Names of the points an operation depends on"""
    names = {op[x] for x in REFERENCES if x in op}
    for x in EXPRESSIONS:
        if isinstance(op.get(x), (tuple, list)):
            for name in formula.names(op[x]):
                if name not in measurements and name != 'CurrentLength':
                    names.update(name.split('_')[1:])
    return names
