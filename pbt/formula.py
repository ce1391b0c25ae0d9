"""Arithmetic formulas over named quantities, as syntax trees (plain data)

A tree is ('n', number as text), ('v', name), ('u', tree), ('p', tree) or (operator, tree, tree).

"""

from fractions import Fraction

from hypothesis import strategies as st


def literals():
    return st.one_of(
        st.integers(0, 12).map(str),
        st.integers(1, 9999).map(lambda i: '{}.{:02}'.format(i // 100, i % 100)),
        st.sampled_from(['0.5', '2.', '.25', '100', '1e2', '1.5e-1', '0.123456789012345']),
    ).map(lambda s: ('n', s))


@st.composite
def trees(draw, names, size=7):
    """Formulas with up to *size* leaves (the size is drawn first, since the recursive strategies give small trees)"""
    names = list(names)

    def leaf():
        if names and draw(st.integers(0, 4)):
            return ('v', names[draw(st.integers(0, len(names) - 1))])
        return draw(literals())

    def positive():
        tree = draw(literals())
        return tree if float(tree[1]) > 0 else ('n', '3')

    def build(n):
        if draw(st.integers(0, 7)) == 7:
            return ('u', build(n))
        if n == 1:
            return leaf()
        kind = draw(st.sampled_from('+-*+-*+-*/'))
        if kind == '/':
            if n > 2 and draw(st.booleans()):
                return ('/', build(n - 2), ('p', ('+', ('**', ('p', leaf()), ('n', '2')), positive())))
            return ('/', build(n - 1), positive())
        left = draw(st.sampled_from([1, n // 2, n - 1])) or 1
        return (kind, build(left), build(n - left))

    return build(draw(st.integers(1, size)))


PRIORITY = {'+': 1, '-': 1, '*': 2, '/': 2, 'u': 3, '**': 4, 'n': 5, 'v': 5, 'p': 5}


def render(tree, style=0):
    """Text of a formula with only the needed parentheses"""
    kind = tree[0]
    if kind in 'nv':
        return tree[1]
    if kind == 'p':
        return '(' + render(tree[1]) + ')'
    if kind == 'u':
        return '-' + wrap(tree[1], 4)
    priority = PRIORITY[kind]
    space = '' if kind in ('**', '*') else ' '
    return wrap(tree[1], priority if kind != '**' else 5) + space + kind + space + wrap(tree[2], priority + 1)


def wrap(tree, priority):
    text = render(tree)
    return text if PRIORITY[tree[0]] >= priority else '(' + text + ')'


def names(tree):
    """Names used by a formula, with repetitions"""
    if tree[0] == 'v':
        return [tree[1]]
    if tree[0] == 'n':
        return []
    return [name for x in tree[1:] for name in names(x)]


def evaluate(tree, get):
    """Exact value, and a bound of the magnitude of its terms; get(name) gives both for a quantity"""
    kind = tree[0]
    if kind == 'n':
        value = Fraction(float(tree[1]))
        return value, abs(value)
    if kind == 'v':
        return get(tree[1])
    x, mx = evaluate(tree[1], get)
    if kind == 'p':
        return x, mx
    if kind == 'u':
        return -x, mx
    y, my = evaluate(tree[2], get)
    if kind == '+':
        return x + y, mx + my
    if kind == '-':
        return x - y, mx + my
    if kind == '*':
        return x * y, mx * my
    if kind == '/':
        return x / y, mx / abs(y) * (my / abs(y))
    if kind == '**':
        return x**2, mx**2
    raise NotImplementedError(kind)
