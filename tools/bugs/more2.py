V = 'Patro/GeometryEngine/Vector.py'
B = 'Patro/GeometryEngine/Bezier.py'
PL = 'Patro/GeometryEngine/Polyline.py'
PR = 'Patro/GeometryEngine/Primitive.py'
M = 'Patro/Measurement/Measurement.py'
C = 'Patro/Pattern/Calculator.py'
PA = 'Patro/Pattern/Pattern.py'

BUGS = [
    dict(id='P01-divide', property='P01',
         edits=[(V, '        obj = self.clone()\n        obj._v /= np.array((scale_x, scale_y))', '        obj = self\n        obj._v /= np.array((scale_x, scale_y))')],
         needs='a vector used again after it was divided by two factors',
         what='dividing a vector by two factors changes the vector itself',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D
         v = Vector2D(4, 9)
         w = v.divide(2, 3)
         assert (w.x, w.y) == (2, 3) and (v.x, v.y) == (4, 9)
         '''),
    dict(id='P01-to-normalised', property='P01',
         edits=[(V, '        return NormalisedVector2D(self._v / self.magnitude)', '        return NormalisedVector2D(self.normalise().v)')],
         needs='a vector used again after its normalised form was asked',
         what='asking the normalised form of a vector normalises the vector itself',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D
         v = Vector2D(3, 4)
         u = v.to_normalised()
         assert abs(u.magnitude - 1) < 1e-9 and (v.x, v.y) == (3, 4)
         '''),
    dict(id='P13-split-end', property='P13',
         edits=[(B, '''        if t <= 0:
            return None, self
        elif t >= 1:
            return self, None
        else:
            p01 = interpolate_two_points(self._p0, self._p1, t)
            p12 = interpolate_two_points(self._p1, self._p2, t)
            p = interpolate_two_points(p01, p12, t) # p = p012''', '''        if t < 1e-4:
            return None, self
        elif t >= 1:
            return self, None
        else:
            p01 = interpolate_two_points(self._p0, self._p1, t)
            p12 = interpolate_two_points(self._p1, self._p2, t)
            p = interpolate_two_points(p01, p12, t) # p = p012''')],
         needs='a quadratic curve split at a parameter of less than a ten-thousandth',
         what='a split very near the start gives no left part',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D
         from Patro.GeometryEngine.Bezier import QuadraticBezier2D
         c = QuadraticBezier2D(Vector2D(0, 0), Vector2D(5, 5), Vector2D(10, 0))
         left, right = c.split_at_t(5e-5)
         assert left is not None and right is not None
         assert (right.p0 - c.point_at_t(5e-5)).magnitude < 1e-9
         '''),
    dict(id='P13-two-order', property='P13',
         edits=[(B, '            # Fixme: raise ?\n            t1, t2 = t2, t1\n', '            # Fixme: raise ?\n            t1, t2 = t2, min(t1, 1 - t2)\n')],
         needs='the parameters given in decreasing order, with a sum larger than one',
         what='the part between two parameters given in decreasing order stops too early',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D
         from Patro.GeometryEngine.Bezier import QuadraticBezier2D
         c = QuadraticBezier2D(Vector2D(0, 0), Vector2D(5, 5), Vector2D(10, 0))
         part = c.split_at_two_t(.9, .4)
         assert (part.p2 - c.point_at_t(.9)).magnitude < 1e-9
         '''),
    dict(id='P14-cache', property='P14',
         edits=[(B, 'length = self._length_cache.get(t, None)', 'length = self._length_cache.get(round(t, 3), None)'),
                (B, '            self._length_cache[t] = length', '            self._length_cache[round(t, 3)] = length')],
         needs='the lengths at two parameters which differ by less than a thousandth, with the cache, as the dichotomy of t_at_length does',
         what='the cached length of a near parameter is returned',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D
         from Patro.GeometryEngine.Bezier import QuadraticBezier2D
         c = QuadraticBezier2D(Vector2D(0, 0), Vector2D(50, 80), Vector2D(100, 0))
         a = c.length_at_t(.50004, cache=True)
         b = c.length_at_t(.49996, cache=True)
         assert a > b
         '''),
    dict(id='P10-edges', property='P10',
         edits=[(PL, '                           for i in range(self.number_of_points -1)]', '                           for i in range(self.number_of_points -1)\n                           if self._points[i] != self._points[i+1]]')],
         needs='a polyline with a repeated vertex',
         what='the edge between two equal vertices is missing',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D
         from Patro.GeometryEngine.Polyline import Polyline2D
         p = Polyline2D(Vector2D(0, 0), Vector2D(3, 0), Vector2D(3, 0), Vector2D(3, 4))
         assert len(list(p.edges)) == 3
         '''),
    dict(id='P03-close', property='P03',
         edits=[(PR, '        return np.allclose(self.point_array, other.point_array)', '        return np.allclose(self.point_array, other.point_array, rtol=1e-2)')],
         needs='two primitives whose large coordinates differ by less than one percent',
         what='primitives which differ by one percent are reported as close',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D
         from Patro.GeometryEngine.Segment import Segment2D
         a = Segment2D(Vector2D(1000, 0), Vector2D(500, 2000))
         b = Segment2D(Vector2D(1005, 0), Vector2D(500, 2000))
         assert not a.is_point_close(b) and a.is_point_close(a.clone())
         '''),
    dict(id='P28-dump', property='P28',
         edits=[(M, '        for measurement in self.sorted_iter():\n            buffer += repr(measurement)', '        for measurement in self:\n            buffer += repr(measurement)')],
         needs='measurements which are not added in the order of their names',
         what='the dump is in the order of the additions',
         demo='''
         from Patro.Measurement.Measurement import MeasurementSet
         s = MeasurementSet()
         s.add('waist', 10)
         s.add('bust', 20)
         text = s.dump()
         assert text.index('bust') < text.index('waist')
         '''),
    dict(id='P30-scope', property='P30',
         edits=[(PA, '                if scope.name == id:\n                    return scope\n            return None', "                if scope.name.lower() == str(id).lower():\n                    return scope\n            return None")],
         needs='two scopes whose names differ by the case',
         what='a scope is found without regard to the case of its name, so that another one is returned or removed',
         demo='''
         from Patro.Pattern.Pattern import Pattern
         from Patro.Measurement.Measurement import MeasurementSet
         p = Pattern(MeasurementSet(), 'cm')
         a, b = p.add_scope('Front'), p.add_scope('front')
         assert p.scope('front') is b and p.scope('Front') is a and p.scope('FRONT') is None
         '''),
    dict(id='P30-remove', property='P30',
         edits=[(PA, '            self._scopes.remove(scope)', '            self._scopes = [x for x in self._scopes if x.name != name]')],
         needs='two scopes of the same name, one of which is removed',
         what='removing a scope by its name removes all the scopes of the name, and by its index none',
         demo='''
         from Patro.Pattern.Pattern import Pattern
         from Patro.Measurement.Measurement import MeasurementSet
         p = Pattern(MeasurementSet(), 'cm')
         p.add_scope('a')
         p.add_scope('b')
         p.remove_scope(0)
         assert list(p.scope_names()) == ['b'] if callable(p.scope_names) else list(p.scope_names) == ['b']
         '''),
    dict(id='P27-unset', property='P27',
         edits=[(C, '        self._current_segment = None\n        # self._logger.debug', '        pass\n        # self._logger.debug')],
         needs='CurrentLength in an expression evaluated after the operation which had a current segment',
         what='the segment of the last operation stays the current one',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D
         from Patro.Pattern.Calculator import Calculator
         c = Calculator(None)
         c.set_current_segment(Vector2D(3, 4))
         c.unset_current_segment()
         try:
             c._function_CurrentLength()
         except AttributeError:
             pass
         else:
             raise AssertionError
         '''),
]
