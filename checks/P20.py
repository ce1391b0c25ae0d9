"""P20 — Dependency graphs and sequence iterators"""

from hypothesis import strategies as st

from Patro.Common import IterTools
from Patro.Common.Graph.DirectedAcyclicGraph import DirectedAcyclicGraph

from pbt.harness import Check, ensure, fail

check = Check(
    'P20',
    rule='Hypothesis generates histories of nodes, connections and disconnections, cycles included, and sequences of values with window sizes.  The oracle is '
         'a set of pairs with its reachability closure and Python slices.  A case is non-trivial when the graph has at least two edges, or the sequence at least two items.',
    assumptions=['at most 300 nodes on a chain'],
)

NAMES = ['n{}'.format(i) for i in range(10)]


@st.composite
def histories(draw):
    """A few nodes, and an history dense enough to have diamonds and nodes with several ancestors"""
    count = draw(st.integers(2, 9))
    node = st.integers(0, count)
    kinds = draw(st.sampled_from([
        ['forward', 'forward', 'forward', 'disconnect', 'add'],
        ['forward', 'forward', 'forward', 'disconnect', 'disconnect', 'connect', 'sort'],
        ['connect', 'connect', 'disconnect', 'sort', 'add'],
    ]))
    size = draw(st.integers(1, 4 * count))
    operations = [('add', i) for i in draw(st.permutations(range(count)))]
    for _ in range(size):
        operations.append((draw(st.sampled_from(kinds)), draw(node), draw(node)))
    return operations


def reach(edges, start):
    seen, todo = {start}, [start]
    while todo:
        a = todo.pop()
        for x, y in edges:
            if x == a and y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def distances(edges, start):
    level, out, d = {start}, {start: 0}, 0
    while level:
        d += 1
        level = {y for x, y in edges if x in level} - set(out)
        out.update((y, d) for y in level)
    return out


def is_cyclic(nodes, edges):
    return any((b == a or a in reach(edges, b)) for a, b in edges)


def check_sort(graph, nodes, edges):
    cyclic = is_cyclic(nodes, edges)
    try:
        order = graph.topological_sort()
    except NameError:
        ensure(cyclic, 'the acyclic graph {} was rejected', sorted(edges))
        return 'cyclic'
    ensure(not cyclic, 'the cyclic graph {} was sorted', sorted(edges))
    ids = [n.node_id for n in order]
    ensure(sorted(ids) == sorted(nodes), 'the sort lists {} instead of {}', ids, sorted(nodes))
    ensure(all(graph[i] is n for i, n in zip(ids, order)), 'the sort gives the nodes of the graph')
    for a, b in edges:
        ensure(ids.index(a) < ids.index(b), '{} is sorted after its dependent {} in {}', a, b, ids)
    return 'acyclic'


def check_graph(graph, nodes, edges):
    ensure([n.node_id for n in graph] == nodes, 'nodes of the graph in order of registration')
    for name in nodes:
        n = graph[name]
        ensure(n.node_id == name and n.data == ('data', name), 'identifier and data of {}', name)
        ensure({d.node_id for d in n.descendants} == {b for a, b in edges if a == name}, 'descendants of {}', name)
        ensure({d.node_id for d in n.ancestor} == {a for a, b in edges if b == name}, 'ancestors of {}', name)
        ensure(n.is_root == (not any(b == name for a, b in edges)), '{} is a root', name)
        ensure(n.is_leaf == (not any(a == name for a, b in edges)), '{} is a leaf', name)
        order = [d.node_id for d in n.breadth_first_search()]
        expected = distances(edges, name)
        ensure(len(order) == len(set(order)) and set(order) == set(expected), 'breadth first search from {} gives {} instead of {}', name, order, sorted(expected))
        levels = [expected[x] for x in order]
        ensure(levels == sorted(levels), 'breadth first search from {} is not by levels: {}', name, levels)
    ensure({n.node_id for n in graph.roots()} == {n for n in nodes if not any(b == n for a, b in edges)} and len(graph.roots()) == len({n.node_id for n in graph.roots()}), 'roots')
    ensure({n.node_id for n in graph.leafs()} == {n for n in nodes if not any(a == n for a, b in edges)} and len(graph.leafs()) == len({n.node_id for n in graph.leafs()}), 'leafs')


@check.facet(histories(), quick=1500)
def graphs(operations):
    graph, nodes, edges = DirectedAcyclicGraph(), [], set()
    label = None
    for op in operations:
        kind = op[0]
        if kind == 'add':
            name = NAMES[op[1]]
            try:
                n = graph.add_node(name, data=('data', name))
            except NameError:
                ensure(name in nodes, 'the new node {} was rejected', name)
            else:
                ensure(name not in nodes, 'the node {} was registered twice', name)
                ensure(graph[name] is n, 'the node is returned')
                nodes.append(name)
            continue
        if kind == 'sort':
            label = check_sort(graph, nodes, edges)
            continue
        a, b = op[1:]
        if kind == 'forward':
            # keeps most of the graphs acyclic
            a, b = min(a, b), max(a, b)
            if a == b:
                continue
        elif kind == 'disconnect' and edges:
            # an existing connection
            a, b = sorted(edges)[(10 * a + b) % len(edges)]
            graph[b].disconnect_ancestor(graph[a])
            edges.discard((a, b))
            check_graph(graph, nodes, edges)
            continue
        a, b = NAMES[a], NAMES[b]
        if a not in nodes or b not in nodes:
            for name in (a, b):
                if name not in nodes:
                    try:
                        graph[name]
                    except KeyError:
                        continue
                    fail('the unknown node {} was found', name)
            continue
        if kind in ('connect', 'forward'):
            if (a, b) in edges or len(edges) % 2:
                graph[b].connect_ancestor(graph[a])
            else:
                graph.add_edge(graph[a], graph[b])
            edges.add((a, b))
    check_graph(graph, nodes, edges)
    label = check_sort(graph, nodes, edges)
    check_graph(graph, nodes, edges)
    return None if len(edges) < 2 else label


@check.facet(st.tuples(st.integers(2, 300), st.randoms(use_true_random=False)).map(lambda c: (c[0], c[1].sample(range(c[0]), c[0]))), quick=60)
def chains(case):
    size, order = case
    graph = DirectedAcyclicGraph()
    for i in order:
        graph.add_node(i)
    for i in order:
        if i:
            graph.add_edge(graph[i - 1], graph[i])
    ensure([n.node_id for n in graph.topological_sort()] == list(range(size)), 'sort of a chain')
    ensure([n.node_id for n in graph[0].breadth_first_search()] == list(range(size)), 'search on a chain')
    graph.add_edge(graph[size - 1], graph[0])
    try:
        graph.topological_sort()
    except NameError:
        return 'chain'
    fail('a cycle of {} nodes was sorted', size)


@check.facet(st.tuples(st.lists(st.integers(0, 5), max_size=12), st.integers(0, 14), st.sampled_from([list, tuple])), quick=2000)
def iterators(case):
    items, n, cls = case
    items = cls(items)
    size = len(items)
    ensure(list(IterTools.pairwise(items)) == [(items[i], items[i + 1]) for i in range(size - 1)], 'pairs of {}', items)
    ensure(list(IterTools.closed_iterator(items)) == list(items) + list(items[:1]), 'closed iteration of {}', items)
    ensure(list(IterTools.closed_pairwise(items)) == [(items[i], items[(i + 1) % size]) for i in range(size)], 'closed pairs of {}', items)
    expected = [tuple(items[i:i + n]) for i in range(size - n + 1)] if n else []
    ensure(list(IterTools.multiwise(items, n)) == expected, 'windows of {} in {}', n, items)
    ensure(list(IterTools.multiwise(iter(items), n)) == expected, 'windows of {} in an iterator on {}', n, items)
    ensure([list(x) for x in IterTools.closed_multiwise_index_iterator(size, n)] == [[(i + j) % size for j in range(n)] for i in range(size)], 'closed windows')
    ensure(list(IterTools.multiwise(items)) == list(IterTools.pairwise(items)), 'windows of two')
    return None if size < 2 else 'sequence'
