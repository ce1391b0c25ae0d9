G = 'Patro/GeometryEngine/Polygon.py'
BUGS = [
    dict(id='P09-single-pop', property='P09',
         edits=[(G, "        while len(_convex_hull) > 1 and is_three_point_cw(_convex_hull[-2], _convex_hull[-1], point):",
                 "        if len(_convex_hull) > 1 and is_three_point_cw(_convex_hull[-2], _convex_hull[-1], point):")],
         needs='two successive points to discard',
         what='only one point is discarded at a clockwise turn, so that the hull of some sets is not convex',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D as V
         from Patro.GeometryEngine.Polygon import convex_hull
         h = convex_hull([V(0, 0), V(10, 0), V(10, 10), V(0, 10), V(6, 4), V(5, 5), V(6, 5), V(4, 6.5)])
         assert [(p.x, p.y) for p in h.points] == [(0, 0), (10, 0), (10, 10), (0, 10)], h
         '''),
    dict(id='P09-lowest', property='P09',
         edits=[(G, "        return p0.x - p1.x if (p0.y == p1.y) else p0.y - p1.y", "        return p1.x - p0.x if (p0.y == p1.y) else p0.y - p1.y")],
         needs='several points at the lowest ordinate',
         what='the pivot is the rightmost of the lowest points',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D as V
         from Patro.GeometryEngine.Polygon import convex_hull
         h = convex_hull([V(2, 3), V(4, 0), V(0, 0), V(1, 0)])
         p = list(h.points)[0]
         assert (p.x, p.y) == (0, 0), h
         '''),
]
