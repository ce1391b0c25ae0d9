T = 'Patro/GeometryEngine/Transformation.py'
BUGS = [
    dict(id='P02-translate-type', property='P02',
         edits=[(T, """                self._m = np.matmul(obj.array, self._m)
                self._type = self._mul_type(obj)
                if self._type == TransformationType.Generic:""",
                 """                self._m = np.matmul(obj.array, self._m)
                # a translation does not change the nature of the transformation
                if obj.type == TransformationType.Translation:
                    return self
                self._type = self._mul_type(obj)
                if self._type == TransformationType.Generic:""")],
         needs='an identity (or a reflection) composed in place with a translation, then composed in place into another transformation',
         what='the classification is stale after an in-place product by a translation: the result still claims to be the identity and is skipped by later products',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D
         from Patro.GeometryEngine.Transformation import AffineTransformation2D as A
         t = A.Identity()
         t *= A.Translation(Vector2D(3, 4))
         s = A.Rotation(90)
         s *= t
         p = s * Vector2D(1, 0)
         assert abs(p.x - 3) < 1e-9 and abs(p.y - 5) < 1e-9, p
         '''),
    dict(id='P02-abs-scale', property='P02',
         edits=[(T, """        if x_scale == y_scale:
            if x_scale == 1:""", """        if x_scale == y_scale or x_scale * y_scale == 1:
            if x_scale == 1:""")],
         needs='an anisotropic scaling whose factors are inverse of each other, applied to a length',
         what='a squeeze (2, 1/2) is classified as a uniform scaling, so that a length is scaled instead of being refused',
         demo='''
         from Patro.GeometryEngine.Transformation import Transformation2D as T
         try:
             (T.Scale(2, .5)) * 3.
         except ValueError:
             pass
         else:
             raise SystemExit(1)
         '''),
    dict(id='P02-mirror-product', property='P02',
         edits=[(T, "        if self._type == obj._type:\n            if self._type in (",
                 "        mirrors = (TransformationType.XParity, TransformationType.YParity)\n"
                 "        if self._type == obj._type or (self._type in mirrors and obj._type in mirrors):\n            if self._type in (")],
         needs='the product of a reflection along x and a reflection along y, used as the right operand of an in-place product',
         what='the product of both reflections, a half turn, is classified as the identity',
         demo='''
         from Patro.GeometryEngine.Vector import Vector2D
         from Patro.GeometryEngine.Transformation import Transformation2D as T
         s = T.Rotation(90)
         s *= T.XReflection() * T.YReflection()
         p = s * Vector2D(1, 0)
         assert abs(p.x) < 1e-9 and abs(p.y + 1) < 1e-9, p
         '''),
]
