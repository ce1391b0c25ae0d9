"""P22 — SVG path data and transform attributes denote what the SVG standard says"""

import random

from hypothesis import strategies as st

from Patro.FileFormat.Svg.SvgFormat import PathDataAttribute, TransformAttribute
from Patro.GeometryEngine.Vector import Vector2D

from checks.P16 import check_path, scale_of
from pbt import gen, num, paths, svgdata
from pbt.harness import Check, ensure, fail
from pbt.num import xy

check = Check(
    'P22',
    rule='Hypothesis generates drawings of up to 10 commands and renders them as path data by any of the ways of the SVG grammar (case, implicit repetition, '
         'optional separators, number forms, flags); the oracle is the interpreter of drawing commands of P16.  Transform lists are rendered likewise and compared '
         'with products of matrices computed in floats.  A case is non-trivial when it has two commands of different kinds, or two functions.',
    assumptions=['coordinates up to 1e3', 'one subpath', 'chords of arcs are at least 10 % away from the diameter of the ellipse', 'skew angles up to 70°'],
)


@st.composite
def path_data(draw, minimum=1, maximum=10):
    drawing = draw(paths.paths(minimum, maximum))
    closed = draw(st.booleans())
    letters = svgdata.to_letters(drawing, closed)
    if draw(st.booleans()):
        # the first moveto is absolute in any case
        letters[0] = ('m', letters[0][1])
    return drawing, closed, draw(svgdata.render(letters))


def check_letters(drawing, closed, text):
    path = PathDataAttribute.from_xml(text)
    pieces = paths.pieces(drawing, closed=closed)
    check_path(path, pieces, drawing[0], closed)


@check.facet(path_data(), quick=3000)
def data(case):
    drawing, closed, text = case
    check_letters(drawing, closed, text)
    kinds = {c[0] for c in drawing[1]}
    if len(kinds) < 2:
        return None
    return 'arc' if 'arc' in kinds else ('smooth' if any('stringed' in k for k in kinds) else 'other')


@st.composite
def repetitive(draw):
    """Few kinds of commands, thus long implicit repetitions"""
    kinds = draw(st.sampled_from([('line',), ('line', 'cubic'), ('cubic', 'stringed_cubic'), ('quadratic', 'stringed_quadratic'), ('stringed_quadratic',),
                                  ('stringed_cubic',), ('arc',), ('arc', 'line'), ('horizontal',), ('vertical', 'absolute_horizontal')]))
    drawing = draw(paths.paths(4, 14, kinds))
    closed = draw(st.booleans())
    letters = svgdata.to_letters(drawing, closed)
    return drawing, closed, draw(svgdata.render(letters, True))


@check.facet(repetitive(), quick=1500)
def repetition(case):
    drawing, closed, text = case
    check_letters(drawing, closed, text)
    letters = sum(c.isalpha() and c not in 'eE' for c in text)
    return 'implicit' if letters < len(drawing[1]) + 1 + closed else None


@st.composite
def invalid_data(draw):
    drawing = draw(paths.paths(1, 5))
    letters = svgdata.to_letters(drawing, draw(st.booleans()))
    kind = draw(st.sampled_from(['missing', 'missing', 'extra', 'letter', 'character', 'start', 'flag']))
    i = draw(st.integers(0, len(letters) - 1))
    letter, args = letters[i]
    if kind == 'flag':
        letters.append(('A', [5., 5., 0., draw(st.sampled_from([2, 3, 9])), 1, 50., 50.]))
        return kind, ' '.join(l + ' ' + ' '.join(str(x) for x in a) for l, a in letters)
    if kind == 'missing':
        if not args:
            i, (letter, args) = 0, letters[0]
        count = draw(st.integers(1, len(args)))
        letters[i] = (letter, args[:len(args) - count])
    elif kind == 'extra':
        # a multiple would be a repetition
        size = max(1, svgdata.SIZES[letter.lower()])
        if size == 1 and args:
            kind, letters = 'start', letters[1:]
        else:
            letters[i] = (letter, args + [1.] * draw(st.integers(1, max(1, size - 1))))
    elif kind == 'letter':
        letters.insert(i, (draw(st.sampled_from('bxrpBX')), [1.] * draw(st.integers(0, 2))))
    elif kind == 'start':
        letters = letters[1:]
        if not letters:
            letters = [('L', [1., 2.])]
    text = ' '.join(l + ' ' + ' '.join(str(int(x)) if l in 'aA' and j in (3, 4) else repr(x) for j, x in enumerate(a)) for l, a in letters)
    if kind == 'character':
        position = draw(st.integers(0, len(text)))
        text = text[:position] + draw(st.sampled_from(['#', ';', '%', '(', '_', '"', '=', '$'])) + text[position:]
    return kind, text


@check.facet(invalid_data(), quick=1000)
def invalid(case):
    """Data in error are rejected"""
    kind, text = case
    try:
        path = PathDataAttribute.from_xml(text)
    except (ValueError, NameError):
        return kind
    fail('invalid path data ({}) {!r} is read as {}', kind, text, path)


@check.facet(st.tuples(path_data(), st.booleans()), quick=1000)
def writing(case):
    """Written path data denote the path"""
    (drawing, closed, _), twice = case
    path = paths.build(drawing)
    if closed:
        path.close()
    text = PathDataAttribute.to_xml(path)
    if twice:
        text = PathDataAttribute.to_xml(PathDataAttribute.from_xml(text))
    letters = svgdata.parse(text)
    ensure(letters[0][0] in 'mM', 'path data {} start with a moveto', text)
    ensure(all(float(x) == y for x, y in zip(letters[0][1], drawing[0])), 'start of {}, expected {}', text, drawing[0])
    pieces = svgdata.to_pieces(letters)
    expected = paths.pieces(drawing, closed=closed)
    ensure(len(pieces) == len(expected) and (letters[-1][0] in 'zZ') == closed, 'path data {} of {}', text, drawing)
    ensure(num.pclose(letters[0][1], drawing[0]), 'start of {}, expected {}', text, drawing[0])
    if not twice:
        # every digit is written
        for piece, part in zip(pieces, path):
            ensure(num.pclose(piece[1][-1], xy(part.stop_point), rtol=1e-15, atol=0), 'end {} in {}, expected {}', piece[1][-1], text, xy(part.stop_point))
    scale = scale_of(expected)
    for piece, reference in zip(pieces, expected):
        ensure(num.pclose(piece[1][0], reference[1][0], scale) and num.pclose(piece[1][-1], reference[1][-1], scale), 'piece {} of {}, expected {}', piece, text, reference)
        if reference[0] == 'arc' and num.dist(reference[1][0], reference[1][-1]) < 1e-3:
            continue
        for t in (.2, .5, .8):
            p, q = paths.sample(piece, t), paths.sample(reference, t)
            ensure(num.pclose(p, q, scale, rtol=1e-6, atol=1e-6), 'piece {} of {} passes by {} instead of {}', piece, text, p, q)
    # values given as commands are written as they are
    commands = svgdata.to_letters(drawing, closed)
    ensure(svgdata.parse(PathDataAttribute.to_xml(commands)) == commands, 'commands {} are written as {}', commands, PathDataAttribute.to_xml(commands))
    check_path(PathDataAttribute.from_xml(PathDataAttribute.to_xml(commands)), expected, drawing[0], closed)
    ensure(PathDataAttribute.from_xml(path) is path, 'a path is its value')
    return 'closed' if closed else 'open' if len(expected) > 1 else None


@st.composite
def transform_text(draw):
    transforms = draw(st.integers(0, 5).flatmap(lambda n: st.lists(svgdata.transform, min_size=n, max_size=n)))
    return transforms, draw(svgdata.render_transforms(transforms))


def check_matrix(transformation, matrix, what):
    m = svgdata.patro_matrix(transformation)
    scale = max(1., *(abs(x) for x in matrix))
    ensure(all(num.close(x, y, scale, rtol=1e-8, atol=1e-8) for x, y in zip(m, matrix)), 'matrix {} of {}, expected {}', m, what, matrix)
    p = (3., -7.)
    a, b, c, d, e, f = matrix
    q = (a * p[0] + c * p[1] + e, b * p[0] + d * p[1] + f)
    ensure(num.pclose(xy(transformation * Vector2D(*p)), q, 10 * scale, rtol=1e-8, atol=1e-8), 'image of {} by {}, expected {}', p, what, q)


@check.facet(transform_text(), quick=2000)
def transforms(case):
    transforms, text = case
    matrix = svgdata.matrix_of_list(transforms)
    transformation = TransformAttribute.from_xml(text)
    check_matrix(transformation, matrix, text)
    # reading does not depend on what was read before, and writing preserves the matrix
    written = TransformAttribute.to_xml(transformation)
    ensure(written.startswith('matrix(') and written.endswith(')'), 'written as {}', written)
    values = [float(x) for x in written[7:-1].replace(',', ' ').split()]
    scale = max(1., *(abs(x) for x in matrix))
    ensure(len(values) == 6 and all(num.close(x, y, scale, rtol=1e-8, atol=1e-8) for x, y in zip(values, matrix)), 'written as {}, expected {}', written, matrix)
    check_matrix(TransformAttribute.from_xml(written), matrix, written)
    ensure(TransformAttribute.from_xml(transformation) is transformation, 'a transformation is its value')
    check_matrix(TransformAttribute.from_xml(text), matrix, text)
    separate = TransformAttribute.to_python([(name, list(values)) for name, values in transforms], concat=False)
    ensure(len(separate) == len(transforms), 'list of transformations')
    for t, (name, values) in zip(separate, transforms):
        check_matrix(t, svgdata.matrix_of(name, values), name)
    return None if len(transforms) < 2 else '{} functions'.format(min(len(transforms), 3))


@check.facet(st.tuples(transform_text(), st.sampled_from(['name', 'open', 'close', 'garbage', 'number']), st.integers(0, 100)), quick=500)
def invalid_transforms(case):
    """A list in error is rejected"""
    (transforms, text), kind, seed = case
    if not transforms:
        transforms, text = [('scale', (2.,))], 'scale(2)'
    rng = random.Random(seed)
    if kind == 'name':
        i = text.index('(')
        text = text.replace(transforms[0][0], rng.choice(['move', 'rotated', 'skew', 'Scale', 'Matrix', 'translateX']), 1)
    elif kind == 'open':
        text = text.replace('(', ' ', 1)
    elif kind == 'close':
        text = text[:text.rindex(')')]
    elif kind == 'garbage':
        text = text.strip() + rng.choice([' 5', ' scale', ';', ' )', ' scale 2'])
    else:
        i = text.index('(')
        text = text[:i + 1] + rng.choice(['x ', '1e ', '-- ', '# ']) + text[i + 1:]
    try:
        transformation = TransformAttribute.from_xml(text)
    except (ValueError, NotImplementedError):
        return kind
    fail('invalid transform {!r} is read as {}', text, transformation)


@check.finding('subpaths')
def subpaths():
    """Several subpaths: the commands after the second moveto are relative to the first subpath"""
    path = PathDataAttribute.from_xml('M0 0 L1 0 M5 5 L6 5')
    parts = [p for p in path]
    segments = [(xy(p.geometry.start_point), xy(p.geometry.end_point)) for p in parts]
    ensure(segments == [((0., 0.), (1., 0.)), ((5., 5.), (6., 5.))], 'segments {}', segments)
