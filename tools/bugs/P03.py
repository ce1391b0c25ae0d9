P = 'Patro/GeometryEngine/Primitive.py'
PG = 'Patro/GeometryEngine/Polygon.py'
BUGS = [
    dict(id='P03-clone-slots', property='P03',
         edits=[(P, "        return self.__class__(*self.points)\n\n    ##############################################\n\n    def __repr__", """        obj = self.__class__.__new__(self.__class__)
        obj.__dict__.update(self.__dict__)
        return obj

    ##############################################

    def __repr__""")],
         needs='a copy of a segment, triangle or curve whose point is then moved in place',
         what='clone shares the point objects with its source (shallow copy)',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D
         from Patro.GeometryEngine.Segment import Segment2D
         a = Segment2D(Vector2D(0, 0), Vector2D(1, 2))
         b = a.clone()
         q = b.p1
         q *= 3
         assert (a.p1.x, a.p1.y) == (1, 2)
         '''),
    dict(id='P03-identity-clone', property='P03',
         edits=[(P, "        obj = self.clone() if clone else self\n        if not transformation.is_identity:\n            obj.apply_transformation(transformation)\n        return obj",
                 "        if transformation.is_identity:\n            return self\n        obj = self.clone() if clone else self\n        obj.apply_transformation(transformation)\n        return obj")],
         needs='a transformed copy asked with the identity, then modified',
         what='the copy transformed by the identity is the primitive itself',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D
         from Patro.GeometryEngine.Segment import Segment2D
         from Patro.GeometryEngine.Transformation import Transformation2D
         a = Segment2D(Vector2D(0, 0), Vector2D(1, 2))
         b = a.transform(Transformation2D.Scale(1), clone=True)
         b.p1 = Vector2D(5, 5)
         assert (a.p1.x, a.p1.y) == (1, 2)
         '''),
    dict(id='P03-scale-swap', property='P03',
         edits=[(P, "        from .Transformation import Transformation2D\n        return self.transform(Transformation2D.Scale(x_factor, y_factor), clone)",
                 "        from .Transformation import Transformation2D\n        return self.transform(Transformation2D.Scale(x_factor, y_factor or x_factor), clone)".replace('y_factor or x_factor', 'abs(y_factor) if y_factor else y_factor'))],
         needs='a scaling with a negative ordinate factor',
         what='scaling by a negative factor along y does not mirror the primitive',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D
         from Patro.GeometryEngine.Segment import Segment2D
         a = Segment2D(Vector2D(0, 0), Vector2D(1, 2)).scale(2, -3, clone=True)
         assert (a.p1.x, a.p1.y) == (2, -6), a
         '''),
]
