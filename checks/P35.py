"""P35 — Typography units, paper sizes and yarn counts"""

import math
from fractions import Fraction

from hypothesis import strategies as st

from Patro.GraphicEngine.GraphicScene.TypographyUnit import InchUnit, MmUnit, PointUnit
from Patro.GraphicEngine.Painter.Paper import PaperSize
from Patro.TextileTechnology import Yarn
from Patro.TextileTechnology.Yarn import TwistType

from pbt.harness import Check, ensure, fail

check = Check(
    'P35',
    rule='Hypothesis generates lengths with chains of conversions, paper names with orientations and margins, valid or not, and yarn counts.  The oracle is rational '
         'arithmetic on the definitions (1 inch = 25.4 mm = 72 points; 1 tex = 9 denier; Nm = 1000 / tex) and the ISO 216 series.  A case is non-trivial when the value is '
         'not null and a unit changes, or the paper is not of level 0.',
    assumptions=['paper dimensions are those of the ideal series, not rounded to the millimetre'],
)

value = st.one_of(st.integers(-1000, 1000), st.floats(-1e6, 1e6).map(lambda x: x if abs(x) > 1e-9 else 0.), st.integers(1, 10**6).map(lambda i: i / 1000))
UNITS = {'mm': (MmUnit, Fraction(10, 254)), 'inch': (InchUnit, Fraction(1)), 'point': (PointUnit, Fraction(1, 72))}


def close(a, b, tolerance=1e-12):
    return abs(a - b) <= tolerance * max(abs(a), abs(b))


@check.facet(st.tuples(value, st.lists(st.sampled_from(sorted(UNITS)), min_size=2, max_size=6)), quick=2500)
def units(case):
    x, chain = case
    obj = UNITS[chain[0]][0](x)
    ensure(type(float(obj)) is float and float(obj) == x, 'value of {!r}', x)
    inches = Fraction(x) * UNITS[chain[0]][1]
    for name in chain[1:]:
        cls, ratio = UNITS[name]
        obj = getattr(obj, 'to_' + name)()
        ensure(type(obj) is cls, '{} instead of {}', type(obj), cls)
        expected = float(inches / ratio)
        ensure(close(float(obj), expected) and type(float(obj)) is float, '{} {} is {} {} instead of {}', x, chain, float(obj), name, expected)
    return None if not x or len(set(chain)) < 2 else chain[0] + '-' + chain[-1]


DIMENSIONS = {'A': (841, 1189), 'B': (1000, 1414), 'C': (917, 1297)}
ISO = {
    # ISO 216 and 269, in mm
    'A': [(841, 1189), (594, 841), (420, 594), (297, 420), (210, 297), (148, 210), (105, 148), (74, 105), (52, 74), (37, 52), (26, 37)],
    'B': [(1000, 1414), (707, 1000), (500, 707), (353, 500), (250, 353), (176, 250), (125, 176), (88, 125), (62, 88), (44, 62), (31, 44)],
    'C': [(917, 1297), (648, 917), (458, 648), (324, 458), (229, 324), (162, 229), (114, 162), (81, 114), (57, 81), (40, 57), (28, 40)],
}


@check.facet(st.tuples(st.sampled_from('ABC'), st.integers(0, 10), st.booleans(), st.booleans(), st.one_of(st.integers(0, 50), st.integers(0, 500).map(lambda i: i / 10))), quick=600)
def papers(case):
    letter, level, lower, landscape, margin = case
    name = '{}{}'.format(letter, level)
    make = lambda name, orientation='portrait': PaperSize(name.lower() if lower else name, orientation, margin)
    paper = make(name, 'landscape' if landscape else 'portrait')
    other = make(name, 'portrait' if landscape else 'landscape')
    ensure(paper.name == name and paper.orientation == ('landscape' if landscape else 'portrait'), 'name {} and orientation {}', paper.name, paper.orientation)
    ensure(paper.margin == margin and type(paper.margin) is float, 'margin {}', paper.margin)
    ensure((paper.width, paper.height) == (other.height, other.width), 'the orientations of {} are not swapped', name)
    width, height = (paper.height, paper.width) if landscape else (paper.width, paper.height)
    ensure(close(height, width * math.sqrt(2), 1e-9), 'aspect ratio of {}: {}', name, height / width)
    expected = ISO[letter][level]
    ensure(abs(width - expected[0]) <= 1.5 and abs(height - expected[1]) <= 1.5, '{} is {} x {} mm', name, width, height)
    ensure(close(paper.width_in * 25.4, paper.width) and close(paper.height_in * 25.4, paper.height), 'inches of {}', name)
    if not level:
        return None
    larger = make('{}{}'.format(letter, level - 1))
    ensure(close(larger.width * larger.height, 2 * width * height, 1e-9), 'area of {}', name)
    ensure(close(larger.width, height, 1e-9), 'half of a format is the next one')
    return letter


@check.facet(st.tuples(
    st.one_of(
        st.sampled_from(['', 'A', '4', 'A11', 'B12', 'C11', 'A-1', 'D4', 'AA', '4A', 'letter', 'A4.5', 'Z0', 'AB4', 'legal']),
        st.tuples(st.sampled_from('ABCabcDEZ'), st.integers(-3, 30)).map(lambda c: '{}{}'.format(*c)),
    ),
    st.sampled_from(['portrait', 'landscape', 'Portrait', '', 'vertical', None])), quick=500)
def rejected(case):
    name, orientation = case
    valid = name[:1].upper() in ('A', 'B', 'C') and name[1:].isdigit() and int(name[1:]) <= 10 and orientation in ('portrait', 'landscape')
    try:
        PaperSize(name, orientation, 10)
    except (ValueError, IndexError):
        ensure(not valid, '{} {} is rejected', name, orientation)
        return 'rejected'
    ensure(valid, '{!r} {!r} is accepted', name, orientation)
    return None


@check.facet(st.tuples(st.one_of(st.integers(1, 2000), st.integers(1, 10**6).map(lambda i: i / 1000), st.floats(1e-6, 1e6)), st.sampled_from([None, 'S', 'Z'])), quick=800)
def yarns(case):
    tex, twist = case
    ensure(close(Yarn.tex2den(tex), 9 * tex) and close(Yarn.den2tex(tex), float(Fraction(tex) / 9)), 'denier of {} tex', tex)
    ensure(close(Yarn.tex2nm(tex), 1000 / tex) and close(Yarn.nm2tex(tex), 1000 / tex), 'metric number of {} tex', tex)
    ensure(close(Yarn.den2tex(Yarn.tex2den(tex)), tex) and close(Yarn.nm2tex(Yarn.tex2nm(tex)), tex), 'round trip of {} tex', tex)
    kwargs = {} if twist is None else dict(twist_type=TwistType[twist])
    yarn = Yarn.Yarn('cotton', 'red', tex, **kwargs)
    ensure(yarn.tex == tex and type(yarn.tex) is float, 'count of the yarn {}', yarn.tex)
    ensure(close(yarn.denier, 9 * tex) and close(yarn.nm, 1000 / tex), 'counts of a yarn of {} tex: {} {}', tex, yarn.denier, yarn.nm)
    ensure(yarn.twist_type is (None if twist is None else TwistType[twist]) and yarn.fiber == 'cotton' and yarn.color == 'red', 'settings of a yarn')
    return 'yarn'
