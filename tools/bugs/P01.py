V = 'Patro/GeometryEngine/Vector.py'
BUGS = [
    dict(id='P01-pos-alias', property='P01',
         edits=[(V, '        """ Return a new vector equal to self """\n        return self.__class__(self._v)', '        """ Return a new vector equal to self """\n        return self')],
         needs='an in-place operation on a vector obtained by the unary plus of another one',
         what='the unary plus of a vector shares its coordinates with the vector, so that a later in-place operation changes both',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D
         a = Vector2D(3, 4)
         b = +a
         b *= 2
         assert (a.x, a.y) == (3, 4)
         '''),
    dict(id='P01-clockwise', property='P01',
         edits=[(V, "        if not counter_clockwise:\n            radians = -radians", "        if not counter_clockwise:\n            radians = -abs(radians)")],
         needs='a clockwise rotation by a negative angle',
         what='a clockwise rotation ignores the sign of its angle',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D
         v = Vector2D(1, 0).rotate(-90, counter_clockwise=False)
         assert abs(v.x) < 1e-9 and abs(v.y - 1) < 1e-9
         '''),
]
