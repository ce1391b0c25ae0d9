S='Patro/Common/Math/Root.py'
G='Patro/Common/Graph/DirectedAcyclicGraph.py'
I='Patro/Common/IterTools.py'
H='''
from Patro.Common.Math import Root
from Patro.Common import IterTools
from Patro.Common.Graph.DirectedAcyclicGraph import DirectedAcyclicGraph as D
def graph(names, edges):
    g = D()
    for n in names: g.add_node(n)
    for a, b in edges: g.add_edge(g[a], g[b])
    return g
'''
def bug(id, S, edits, needs, what, demo):
    return dict(id=id, property=id.split('-')[0], edits=[(S, a, b) for a, b in edits], needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P19-biquadratic', S, [("    E = a*x**5 + b*x**4 + c*x**3 + d*x**2 + e*x + f\n","    E = a*x**5 + b*x**4 + c*x**3 + d*x**2 + (e*x if a or b else 0) + f\n")],
   'a fifth degree finder on a polynomial of degree three or less', 'the linear term is dropped',
   "assert len(Root.fifth_root(0, 0, 0, 1, -3, 2)) == 2"),
 bug('P19-discriminant', S, [("    if D < 0:\n        return None # not real","    if D < 1e-3:\n        return None # not real")],
   'two roots which are equal or close', 'no root is reported',
   "assert Root.quadratic_root(1, -2, 1) == (1,)"),
 bug('P19-degenerate', S, [("    if a == 0 and b == 0:\n        return None\n","    if a == 0 and (b == 0 or c == 0):\n        return None\n")],
   'a linear equation whose root is null', 'the root is missing',
   "assert Root.quadratic_root(0, 2, 0) == (0,)"),
 bug('P19-cubic-leading', S, [("    if a == 0:\n        return quadratic_root(b, c, d)\n","    if abs(a) < .2:\n        return quadratic_root(b, c, d)\n")],
   'a cubic with a small leading coefficient', 'it is solved as a quadratic',
   "assert len(Root.cubic_root(.1, 0, -.1, 0)) == 3"),
 bug('P20-sort-mark', G, [("                temporary_marked_nodes.remove(node)\n                sorted_list.append(node)\n","                sorted_list.append(node)\n            temporary_marked_nodes.discard(node)\n"),
                         ("                temporary_marked_nodes.add(node)\n                for descendant in node._descendants:\n","                if not node.is_root:\n                    temporary_marked_nodes.add(node)\n                for descendant in node._descendants:\n")][:1] , 'x', 'x', ''),
 bug('P20-sort-mark', G, [("                for descendant in node._descendants:\n                    visit(descendant)\n","                for descendant in node._descendants:\n                    if len(sorted_list) < 5 or descendant not in temporary_marked_nodes:\n                        visit(descendant)\n")],
   'a cycle of which all the nodes come after at least five sorted nodes', 'the cyclic graph is sorted',
   """
for n in range(6, 20):
    for k in range(5):
        edges = [('c', 'd'), ('d', 'c')] + [('d', i) for i in range(n)]
        try: graph(['c', 'd'] + list(range(n)), edges).topological_sort()
        except NameError: continue
        raise SystemExit('cycle accepted')
"""),
 bug('P20-disconnect', G, [("        self._ancestors.remove(node)\n        node.descendants.remove(self)\n","        self._ancestors.remove(node)\n        if not self._ancestors:\n            node.descendants.remove(self)\n")],
   'a disconnection of a node which has another ancestor', 'the node remains a descendant',
   "g = graph('abc', ['ac', 'bc']); g['c'].disconnect_ancestor(g['a']); assert g['a'].is_leaf"),
 bug('P20-bfs', G, [("                if descendant not in visited:\n                    queue.append(descendant)\n                    visited.add(descendant)\n","                if descendant not in visited:\n                    queue.insert(0 if descendant.is_leaf else len(queue), descendant)\n                    visited.add(descendant)\n")],
   'a node with children at several levels', 'a deep leaf comes before a shallower node',
   "g = graph('abcdexyz', ['ab', 'ac', 'bx', 'cy', 'bz', 'xd']); o = [n.node_id for n in g['a'].breadth_first_search()]; assert max(map(o.index, 'bc')) < min(map(o.index, 'xyz'))\n"),
 bug('P20-bfs-visited', G, [("            node = queue.pop(0)\n            yield node\n            for descendant in node._descendants:\n                if descendant not in visited:\n                    queue.append(descendant)\n                    visited.add(descendant)\n",
    "            node = queue.pop(0)\n            yield node\n            visited.add(node)\n            for descendant in node._descendants:\n                if descendant not in visited:\n                    queue.append(descendant)\n")],
   'a node reachable by two paths of the same length', 'the node is listed twice',
   "g = graph('abcd', ['ab', 'ac', 'bd', 'cd']); assert len(list(g['a'].breadth_first_search())) == 4"),
 bug('P20-pairwise', I, [("    for x in iterable[1:]:\n        yield prev, x\n        prev = x\n","    for x in iterable[1:]:\n        if x is not prev or len(iterable) < 3:\n            yield prev, x\n        prev = x\n")],
   'a sequence which repeats an item', 'the pair is skipped',
   "assert list(IterTools.pairwise([1, 1, 2])) == [(1, 1), (1, 2)]"),
 bug('P20-multiwise', I, [("    for i, iterator in enumerate(iterators):\n        for j in range(i):\n","    for i, iterator in enumerate(iterators):\n        for j in range(min(i, 4)):\n")],
   'windows of six items or more', 'the last items of the window are not shifted',
   "assert list(IterTools.multiwise(range(7), 6)) == [(0,1,2,3,4,5),(1,2,3,4,5,6)]"),
]
del BUGS[4]
