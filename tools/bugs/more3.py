PR = 'Patro/GeometryEngine/Primitive.py'
PA = 'Patro/GeometryEngine/Path.py'
PO = 'Patro/GeometryEngine/Polygon.py'
PL = 'Patro/GeometryEngine/Polyline.py'
T = 'Patro/GeometryEngine/Triangle.py'

BUGS = [
    dict(id='P03-box-cache', property='P03',
         edits=[(PR, '        # Fixme: cache\n        if self.is_infinite:\n            return None\n        else:\n            return bounding_box_from_points(self.points)',
                 '        if self.is_infinite:\n            return None\n        if getattr(self, \'_bounding_box\', None) is None:\n            self._bounding_box = bounding_box_from_points(self.points)\n        return self._bounding_box')],
         needs='a primitive whose box was asked before it is transformed in place',
         what='the bounding box of a primitive is cached and is not updated by a transformation',
         demo='''
         from Patro.GeometryEngine.Segment import Segment2D
         from Patro.GeometryEngine.Vector import Vector2D
         s = Segment2D(Vector2D(0, 0), Vector2D(1, 2))
         assert s.bounding_box.bounding_box == (0, 0, 1, 2)
         s.scale(2, 3)
         assert s.bounding_box.bounding_box == (0, 0, 2, 6)
         '''),
    dict(id='P04-path-cache', property='P04',
         edits=[(PA, '        # Fixme: cache\n        bounding_box = None\n        for item in self._parts:\n            interval = item.geometry.bounding_box\n            if bounding_box is None:',
                 '        # start from the box of the previous call\n        bounding_box = getattr(self, \'_bounding_box\', None)\n        for item in self._parts:\n            interval = item.geometry.bounding_box\n            if bounding_box is None:'),
                (PA, '                bounding_box |= item.bulge_geometry.bounding_box\n        return bounding_box', '                bounding_box |= item.bulge_geometry.bounding_box\n        self._bounding_box = bounding_box\n        return bounding_box')],
         needs='a path whose box is asked, then moved or changed, and asked again',
         what='the box of a path still contains the places where the path was',
         demo='''
         from Patro.GeometryEngine.Path import Path2D
         from Patro.GeometryEngine.Transformation import AffineTransformation2D
         from Patro.GeometryEngine.Vector import Vector2D
         path = Path2D((0, 0))
         path.line_to(Vector2D(1, 2))
         assert path.bounding_box.bounding_box == (0, 0, 1, 2)
         path.transform(AffineTransformation2D.Translation(Vector2D(10, 10)))
         assert path.bounding_box.bounding_box == (10, 10, 11, 12), path.bounding_box
         '''),
    dict(id='P09-single-pop', property='P09',
         edits=[(PO, '        while len(_convex_hull) > 1 and is_three_point_cw(_convex_hull[-2], _convex_hull[-1], point):\n            _convex_hull.pop()',
                 '        if len(_convex_hull) > 1 and is_three_point_cw(_convex_hull[-2], _convex_hull[-1], point):\n            _convex_hull.pop()')],
         needs='two successive points to remove',
         what='the hull keeps points that are inside when several points must be removed at once',
         demo='''
         from Patro.GeometryEngine.Polygon import convex_hull
         from Patro.GeometryEngine.Vector import Vector2D
         points = [(0, 0), (10, 0), (9, 3), (7, 3.5), (9, 9), (0, 10)]
         points = [Vector2D(p) for p in [(0, 0), (10, 0), (6, 2), (5, 3), (10, 10)]]
         hull = [(p.x, p.y) for p in convex_hull(points).points]
         assert hull == [(0, 0), (10, 0), (10, 10)], hull
         '''),
    dict(id='P09-turn-epsilon', property='P09',
         edits=[(PO, '    return ccw(p1, p2, p3) < 0', '    return ccw(p1, p2, p3) < -1')],
         needs='a shallow clockwise turn, with a determinant between -1 and 0',
         what='small clockwise turns are not detected',
         demo='''
         from Patro.GeometryEngine.Polygon import convex_hull, is_three_point_cw
         from Patro.GeometryEngine.Vector import Vector2D
         assert is_three_point_cw(Vector2D(0, 0), Vector2D(1, 0), Vector2D(2, -.5))
         hull = convex_hull([Vector2D(p) for p in [(0, 0), (2, 0), (1.5, .5), (2, 2)]])
         assert len(list(hull.points)) == 3
         '''),
    dict(id='P10-early-stop', property='P10',
         edits=[(PL, '            if distance is None or edge_distance < distance:\n                distance = edge_distance\n        return distance',
                 '            if distance is None or edge_distance < distance:\n                distance = edge_distance\n            elif edge_distance > 2 * distance:\n                # the polyline moves away\n                break\n        return distance')],
         needs='a polyline which moves away from the point, then comes back nearer',
         what='the distance to a polyline ignores the edges after the polyline moves away from the point',
         demo='''
         from Patro.GeometryEngine.Polyline import Polyline2D
         from Patro.GeometryEngine.Vector import Vector2D
         p = Polyline2D(Vector2D(0, 0), Vector2D(10, 0), Vector2D(10, 10), Vector2D(0, 10), Vector2D(0, 2))
         assert abs(p.distance_to_point(Vector2D(1, 1.5)) - 1.118033988749895) < 1e-9
         '''),
    dict(id='P10-edges-generator', property='P10',
         edits=[(PL, '            self._edges = [Segment2D(self._points[i], self._points[i+1])\n                           for i in range(self.number_of_points -1)]\n\n        return iter(self._edges)',
                 '            self._edges = iter([Segment2D(self._points[i], self._points[i+1])\n                                for i in range(self.number_of_points -1)])\n\n        return self._edges')],
         needs='two queries of a same polyline',
         what='the edges of a polyline can be iterated only once',
         demo='''
         from Patro.GeometryEngine.Polyline import Polyline2D
         from Patro.GeometryEngine.Vector import Vector2D
         p = Polyline2D(Vector2D(0, 0), Vector2D(10, 0), Vector2D(10, 10))
         assert p.length == 20 and len(list(p.edges)) == 2
         '''),
    dict(id='P03-triangle-cache', property='P03',
         edits=[(T, '        self._cache_length()\n        return self._p10 + self._p21 + self._p02', '        if not hasattr(self, \'_p10\'):\n            self._cache_length()\n        return self._p10 + self._p21 + self._p02')],
         needs='a triangle whose perimeter was asked before it is scaled in place',
         what='the perimeter of a triangle is the one before the transformation',
         demo='''
         from Patro.GeometryEngine.Triangle import Triangle2D
         from Patro.GeometryEngine.Vector import Vector2D
         t = Triangle2D(Vector2D(0, 0), Vector2D(3, 0), Vector2D(0, 4))
         assert abs(t.perimeter - 12) < 1e-9
         t.scale(2)
         assert abs(t.perimeter - 24) < 1e-9
         '''),
    dict(id='P03-heptagon', property='P03',
         edits=[(PO, '        return 360 / self._number_of_edges', '        return 360 // self._number_of_edges')],
         needs='a regular polygon whose number of edges does not divide 360',
         what='the vertices of a regular polygon are not evenly spaced',
         demo='''
         from Patro.GeometryEngine.Polygon import RegularPolygon
         lengths = [edge.length for edge in RegularPolygon((0, 0), 1, 7).edges]
         assert max(lengths) - min(lengths) < 1e-9
         '''),
    dict(id='P07-barycenter-alias', property='P07',
         edits=[(PO, '        center = self.__vector_cls__(self.start_point)\n        for point in self.iter_from_second_point():', '        center = self.start_point\n        for point in self.iter_from_second_point():')],
         needs='a polygon used after the barycentre of its points is asked',
         what='asking the barycentre of the points moves the first vertex',
         demo='''
         from Patro.GeometryEngine.Polygon import Polygon2D
         from Patro.GeometryEngine.Vector import Vector2D
         p = Polygon2D(Vector2D(0, 0), Vector2D(3, 0), Vector2D(3, 3))
         p.point_barycenter
         assert [(v.x, v.y) for v in p.points] == [(0, 0), (3, 0), (3, 3)]
         '''),
    dict(id='P04-box-type', property='P04',
         edits=[(PA, '            interval = item.geometry.bounding_box\n            if bounding_box is None:\n                bounding_box = interval\n            else:\n                bounding_box |= interval',
                 '            interval = item.geometry.bounding_box\n            if bounding_box is None:\n                bounding_box = interval\n            elif item.start_point != item.stop_point:\n                bounding_box |= interval')],
         needs='a part which comes back to its start: a full circle arc or a looping curve',
         what='the box of a path ignores the parts that end where they start',
         demo='''
         from Patro.GeometryEngine.Path import Path2D
         from Patro.GeometryEngine.Vector import Vector2D
         path = Path2D((0, 0))
         path.line_to(Vector2D(1, 2))
         path.cubic_to(Vector2D(11, 2), Vector2D(1, 12), Vector2D(1, 2), absolute=True)
         assert path.bounding_box.x.sup > 4
         '''),
]
