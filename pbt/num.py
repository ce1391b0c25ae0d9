"""Reference numeric helpers, independent of the code under test"""

import math

from .harness import Violation, ensure, fail


def xy(v):
    """Coordinates of a vector of the code under test as a tuple of floats"""
    return (float(v.x), float(v.y))


def close(a, b, scale=1.0, rtol=1e-9, atol=1e-9):
    if a is None or b is None:
        return False
    a = float(a)
    b = float(b)
    if math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b), abs(scale))


def ensure_close(a, b, message, *args, scale=1.0, rtol=1e-9, atol=1e-9):
    if not close(a, b, scale, rtol, atol):
        fail('{}: got {!r}, expected {!r}'.format(message.format(*args) if args else message, a, b))


def pclose(p, q, scale=1.0, rtol=1e-9, atol=1e-9):
    s = max(abs(scale), abs(q[0]), abs(q[1]))
    return close(p[0], q[0], s, rtol, atol) and close(p[1], q[1], s, rtol, atol)


def ensure_point(v, q, message, *args, scale=1.0, rtol=1e-9, atol=1e-9):
    """*v* is a vector of the code under test, *q* the expected coordinates"""
    if v is None:
        fail('{}: got None, expected {!r}'.format(message.format(*args) if args else message, q))
    p = xy(v)
    if not pclose(p, q, scale, rtol, atol):
        fail('{}: got {!r}, expected {!r}'.format(message.format(*args) if args else message, p, q))


def add(p, q):
    return (p[0] + q[0], p[1] + q[1])


def sub(p, q):
    return (p[0] - q[0], p[1] - q[1])


def mul(p, s):
    return (p[0] * s, p[1] * s)


def dot(p, q):
    return p[0] * q[0] + p[1] * q[1]


def cross(p, q):
    return p[0] * q[1] - p[1] * q[0]


def norm(p):
    return math.hypot(p[0], p[1])


def dist(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1])


def lerp(p, q, t):
    return (p[0] + (q[0] - p[0]) * t, p[1] + (q[1] - p[1]) * t)


def rotate(p, degrees, center=(0.0, 0.0)):
    r = math.radians(degrees)
    c, s = math.cos(r), math.sin(r)
    x, y = p[0] - center[0], p[1] - center[1]
    return (center[0] + c * x - s * y, center[1] + s * x + c * y)


def polar(radius, degrees):
    r = math.radians(degrees)
    return (radius * math.cos(r), radius * math.sin(r))


def orientation(p):
    """Angle in degrees, in (-180, 180]"""
    return math.degrees(math.atan2(p[1], p[0]))


def angle_difference(a, b):
    """Smallest absolute difference between two angles in degrees"""
    d = (a - b) % 360.0
    return min(d, 360.0 - d)


def distance_to_segment(p, a, b):
    v = sub(b, a)
    l2 = dot(v, v)
    if l2 == 0:
        return dist(p, a)
    t = max(0.0, min(1.0, dot(sub(p, a), v) / l2))
    return dist(p, lerp(a, b, t))


def magnitude_of(*pts):
    """Largest coordinate, used as scale of the tolerance"""
    return max([1.0] + [max(abs(p[0]), abs(p[1])) for p in pts])
