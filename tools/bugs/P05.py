L = 'Patro/GeometryEngine/Line.py'
BUGS = [
    dict(id='P05-shift-sign', property='P05',
         edits=[(L, "        n = self.v.normal\n        n.normalise()\n        point = self.p + n*shift", "        n = self.v.normal\n        if n.y < 0:\n            n = -n\n        n.normalise()\n        point = self.p + n*shift")],
         needs='a line going to the left',
         what='the shifted parallel line is on the wrong side for lines whose direction has a negative abscissa',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D
         from Patro.GeometryEngine.Line import Line2D
         l = Line2D(Vector2D(0, 0), Vector2D(-2, 0))
         m = l.shifted_parallel_line(3)
         assert abs(l.distance_to_line(m.p) - 3) < 1e-9
         '''),
    dict(id='P05-abscissa-length', property='P05',
         edits=[(L, "            s = delta.projection_on(self.v)\n            return d, s   # distance", "            s = delta.dot(self.v)\n            return d, s   # distance")],
         needs='a direction that is not a unit vector',
         what='the abscissa returned with the distance is not a length when the direction is not normalised',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D
         from Patro.GeometryEngine.Line import Line2D
         l = Line2D(Vector2D(0, 0), Vector2D(4, 0))
         d, s = l.distance_and_abscissa_to_line(Vector2D(3, 2))
         assert abs(s - 3) < 1e-9
         '''),
    dict(id='P05-triangle-sqrt', property='P05',
         edits=[(L, "        d = math.sqrt(distance**2 - (p-point).magnitude_square)", "        d = math.sqrt(abs(distance**2 - (p-point).magnitude_square))")],
         needs='a distance smaller than the distance of the point to the line',
         what='a point of the line at an unreachable distance is returned instead of an error',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D
         from Patro.GeometryEngine.Line import Line2D
         l = Line2D(Vector2D(0, 0), Vector2D(1, 0))
         try:
             l.triangle_projected_point(Vector2D(3, 2), 1)
         except ValueError:
             pass
         else:
             raise SystemExit(1)
         '''),
]
