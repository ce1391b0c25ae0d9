G = 'Patro/GeometryEngine/Polygon.py'
L = 'Patro/GeometryEngine/Polyline.py'
BUGS = [
    dict(id='P10-deviation-sign', property='P10',
         edits=[(G, "            return abs(deviation) <= threshold", "            return deviation <= threshold")],
         needs='a convex vertex of a counter-clockwise polygon',
         what='vertices that deviate on one side are always removed',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D as V
         from Patro.GeometryEngine.Polygon import Polygon2D
         for pts in (((0, 0), (4, 0), (4, 4), (2, 1), (0, 4)), ((0, 4), (2, 1), (4, 4), (4, 0), (0, 0))):
             p = Polygon2D(*[V(*x) for x in pts])
             try:
                 q = p.simplify(.1)
             except ValueError:
                 raise SystemExit(1)
             assert q is not None and q.number_of_points == 5, q
         '''),
    dict(id='P10-distance-first', property='P10',
         edits=[(L, "            if distance is None or edge_distance < distance:\n                distance = edge_distance\n        return distance",
                 "            if distance is not None and edge_distance > distance:\n                break # we go away\n            distance = edge_distance\n        return distance")],
         needs='a polyline that comes back near the point',
         what='the distance to a polyline is the first local minimum',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D as V
         from Patro.GeometryEngine.Polyline import Polyline2D
         p = Polyline2D(V(0, 0), V(10, 0), V(10, 10), V(1, 3), V(0, 2.5))
         assert abs(p.distance_to_point(V(0, 2)) - .5) < .1
         '''),
    dict(id='P10-wrap', property='P10',
         edits=[(G, "                   if j < i:\n                       break # we tested the first vertex", "                   if j < i:\n                       remove.append(i)\n                       break # we tested the first vertex")],
         needs='a flat angle at the first vertex of the polygon',
         what='the last kept vertex is removed together with the first one when the first one is flat',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D as V
         from Patro.GeometryEngine.Polygon import Polygon2D
         p = Polygon2D(V(2, 0), V(4, 0), V(4, 4), V(0, 4), V(0, 0)).simplify(0)
         assert [(q.x, q.y) for q in p.points] == [(4, 0), (4, 4), (0, 4), (0, 0)], p
         '''),
]
