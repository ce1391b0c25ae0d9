S='Patro/GraphicEngine/GraphicScene/Scene.py'; I='Patro/GraphicEngine/GraphicScene/GraphicItem.py'; M='Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py'
H='''
from Patro.GeometryEngine.Vector import Vector2D as V
from Patro.GeometryEngine.Path import Path2D
from Patro.GeometryEngine.Conic import Circle2D, AngularDomain
from Patro.GeometryEngine.Segment import Segment2D
from Patro.GeometryEngine.Bezier import QuadraticBezier2D
from Patro.GeometryEngine.Transformation import AffineTransformation2D as A
from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
style = GraphicPathStyle()
def segment(scene, *c, user_data=None):
    return scene.segment(V(c[0], c[1]), V(c[2], c[3]), style, user_data=user_data)
'''
def bug(id, F, edits, needs, what, demo):
    return dict(id=id, property='P32', edits=[(F, a, b) for a, b in edits], needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P32-depth', S, [("                items = z_map.setdefault(item.z_value, [])","                items = z_map.setdefault(int(item.z_value), [])")],
   'depths that are not integers', 'two depths with the same integer part are one', "s = GraphicScene(); a = segment(s, 0, 0, 1, 1); b = segment(s, 0, 0, 1, 1); a.z_value = .5; assert [id(x) for x in s.z_value_iter()] == [id(b), id(a)]"),
 bug('P32-stale-box', S, [("        old_bounding_box = self._item_bounding_box_cache.pop(item_id, None)","        old_bounding_box = self._item_bounding_box_cache.setdefault(item_id, None)"),
                          ("            self._item_bounding_box_cache[item_id] = bounding_box\n","            self._item_bounding_box_cache.setdefault(item_id, bounding_box)\n")],
   'an item marked dirty, moved then removed or moved twice', 'its box is not deleted from the index', """
s = GraphicScene(); s.add_coordinate('A', V(0, 0)); a = s.segment('A', V(1, 1), style, user_data=None); s.update_rtree()
for i in (10, 20):
    s.add_coordinate('A', V(i, 0)); a.dirty = True; s.update_rtree()
s.remove_item(a); assert len(s.item_in_bounding_box((-100, -100, 100, 100))) == 0
"""),
 bug('P32-nearest', S, [("                if distance is not None and distance <= radius:","                if distance and distance <= radius:")],
   'a query exactly on an item', 'the item is not found', "s = GraphicScene(); a = segment(s, 0, 0, 2, 2); s.update_rtree(); assert len(s.item_at(V(1, 1), 1)) == 1"),
 bug('P32-order', S, [("        return sorted(items, key=lambda pair: pair[0])","        return sorted(items, key=lambda pair: round(pair[0], 1))")],
   'two items at nearly the same distance', 'they are not sorted', """
for i in range(30):
    s = GraphicScene()
    for j in range(8):
        segment(s, -5, 1 + ((j * (i + 3)) % 8) / 200, 5, 1 + ((j * (i + 3)) % 8) / 200)
    s.update_rtree(); d = [x[0] for x in s.item_at(V(0, 0), 3)]; assert d == sorted(d), d
"""),
 bug('P32-select', S, [("        return [item for item in self._items.values() if item.selected]","        return [item for item in self.z_value_iter() if item.selected]")],
   'a selected item that is hidden', 'it stays selected', "s = GraphicScene(); a = segment(s, 0, 0, 2, 2); a.selected = True; a.visible = False; s.unselect_items(); assert not a.selected"),
 bug('P32-user-data', S, [("            user_data_id = id(user_data)   # Fixme: hash ???\n            items = self","            user_data_id = id(user_data)   # Fixme: hash ???\n            if cls is GraphicItem.TextItem and user_data_id not in self._user_data_map:\n                return item\n            items = self")],
   'a text that is the first item of an user data', 'it is not found by this user data', """
from Patro.GraphicEngine.GraphicScene.GraphicStyle import Font
s = GraphicScene(); u = object(); t = s.text(V(0, 0), 'a', Font('Arial', 10), user_data=u); assert s.item_for_user_data(u) and s.item_for_user_data(u)[0] is t"""),
 bug('P32-domain', S, [("            if item.domain:\n                kwargs['start_angle'] = item.domain.start\n                kwargs['stop_angle'] = item.domain.stop\n\n        elif","            if item.domain:\n                kwargs['start_angle'] = item.domain.start % 360\n                kwargs['stop_angle'] = item.domain.stop % 360\n\n        elif")],
   'an arc of circle that passes by the angle 0', 'the item is the other part of the circle or its domain is wrong', """
s = GraphicScene(); a = s.add_geometry(Circle2D(V(0, 0), 1, domain=AngularDomain(270, 450)), style); g = a.geometry
d = g.domain; p = g.point_at_angle((d.start + d.stop) / 2); assert abs(p.x - 1) < 1e-6 and abs(p.y) < 1e-6, p"""),
 bug('P32-bezier-path', S, [("            j = degree * i\n","            j = min(degree * i, 12)\n")],
   'a Bézier path with many points', 'curves after the twelfth point are wrong', "s = GraphicScene(); l = [V(i, i % 3) for i in range(19)]; items = s.bezier_path(l, 3, style, user_data=None); assert [list(i.positions) for i in items] == [l[3*i:3*i+4] for i in range(6)]"),
 bug('P32-dirty', M, [("        self._dirty = bool(value)\n        if self._dirty:\n            self._geometry = None\n","        self._dirty = bool(value)\n        if self._dirty:\n            if self._selected:\n                return\n            self._geometry = None\n")],
   'a selected item whose coordinate moves', 'it keeps its geometry', """
s = GraphicScene(); s.add_coordinate('A', V(0, 0)); a = s.segment('A', V(1, 1), style, user_data=None); s.update_rtree(); a.selected = True
s.add_coordinate('A', V(50, 50)); a.dirty = True; s.update_rtree(); assert a.geometry.p0.x == 50"""),
]
