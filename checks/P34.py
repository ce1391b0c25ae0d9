"""P34 — Tiling of a drawing on pages"""

import math

from hypothesis import strategies as st
from IntervalArithmetic import Interval2D

from Patro.GraphicEngine.Painter.Painter import Tiler
from Patro.GraphicEngine.Painter.Paper import PaperSize

from pbt import gen
from pbt.harness import Check, ensure, fail

check = Check(
    'P34',
    rule='Hypothesis generates bounding boxes, exact multiples of the printable area among them, papers, orientations and margins.  The oracle is the geometry of a grid: '
         'sizes, adjacency, disjoint interiors, covering and minimality, checked page by page and at random points.  A case is non-trivial when there are at least two pages.',
    assumptions=['drawings in centimetres, papers in millimetres, the printable area excludes the margin of the paper and 2 mm on each side', 'at most 900 pages'],
)

TOLERANCE = 1e-9


@st.composite
def cases(draw):
    letter, level = draw(st.sampled_from('ABC')), draw(st.integers(0, 7))
    orientation = draw(st.sampled_from(['portrait', 'landscape']))
    paper_margin = draw(st.one_of(st.integers(0, 20), st.integers(0, 200).map(lambda i: i / 10)))
    margin = draw(st.sampled_from([None, 0, .5, 1, 2, 7.25]))
    origin = draw(gen.point_tame)
    # in pages
    extents = [draw(st.one_of(st.integers(1, 15).map(float), st.integers(1, 25000).map(lambda i: i / 1000))) for _ in range(2)]
    return letter, level, orientation, paper_margin, margin, origin, extents, draw(st.lists(st.tuples(st.integers(0, 1000), st.integers(0, 1000)), max_size=6))


@check.facet(cases(), quick=700, shards=2)
def tiles(case):
    letter, level, orientation, paper_margin, margin, origin, extents, points = case
    paper = PaperSize(letter + str(level), orientation, paper_margin)
    width, height = [(x - 2 * (paper_margin + 2)) / 10 for x in (paper.width, paper.height)]
    if width < .5 or height < .5:
        return None
    border = 1 if margin is None else margin
    lengths = [max(extents[0] * width, 2 * border + .01), max(extents[1] * height, 2 * border + .01)]
    if lengths[0] / width * lengths[1] / height > 900:
        lengths = [min(x, 20 * area) for x, area in zip(lengths, (width, height))]
    # the drawing without its margin
    lower = [x + border for x in origin]
    upper = [o + l - border for o, l in zip(origin, lengths)]
    if any(l > u for l, u in zip(lower, upper)):
        return None
    box = Interval2D(*zip(lower, upper))
    before = box.bounding_box
    tiler = Tiler(box, paper) if margin is None else Tiler(box, paper, margin)
    pages = list(tiler)
    ensure(box.bounding_box == before, 'the given bounding box was changed')
    again = [(i.bounding_box, r, c) for i, r, c in tiler]
    ensure(again == [(i.bounding_box, r, c) for i, r, c in pages], 'a second iteration differs')

    lower = [x - border for x in lower]
    upper = [x + border for x in upper]
    scale = TOLERANCE * max(1, *map(abs, lower + upper))
    ensure(pages, 'there is no page')
    rows, columns = max(r for _, r, _ in pages) + 1, max(c for _, _, c in pages) + 1
    numbers = [(r, c) for _, r, c in pages]
    ensure(sorted(numbers) == [(r, c) for r in range(rows) for c in range(columns)], 'the pages are numbered {}', numbers)
    grid = {(r, c): i for i, r, c in pages}
    for (r, c), interval in grid.items():
        x_inf, y_inf, x_sup, y_sup = interval.bounding_box
        ensure(abs(x_sup - x_inf - width) < scale and abs(y_sup - y_inf - height) < scale, 'the page {} is of {} x {} instead of {} x {}', (r, c), x_sup - x_inf, y_sup - y_inf, width, height)
        if c + 1 < columns:
            following = grid[r, c + 1].bounding_box
            ensure(abs(following[0] - x_sup) < scale and abs(following[1] - y_inf) < scale, 'the pages of the row {} are not adjacent at the column {}', r, c)
        if r + 1 < rows:
            following = grid[r + 1, c].bounding_box
            ensure(abs(following[1] - y_sup) < scale and abs(following[0] - x_inf) < scale, 'the pages of the column {} are not adjacent at the row {}', c, r)
    first, last = grid[0, 0].bounding_box, grid[rows - 1, columns - 1].bounding_box
    ensure(first[0] <= lower[0] + scale and first[1] <= lower[1] + scale, 'the lower left corner {} is not covered by {}', lower, first)
    ensure(last[2] >= upper[0] - scale and last[3] >= upper[1] - scale, 'the upper right corner {} is not covered by {}', upper, last)
    # no page is superfluous, on any side
    ensure(first[2] > lower[0] - scale and first[3] > lower[1] - scale, 'the first page {} is out of the drawing', first)
    ensure(last[0] < upper[0] + scale and last[1] < upper[1] + scale, 'the last page {} is out of the drawing', last)
    for i, (_, size, extent) in enumerate(zip('xy', (width, height), lengths)):
        count = (columns, rows)[i]
        ensure(count - 1 <= math.ceil(extent / size - 1e-9) <= count, '{} pages of {} for {}', count, size, extent)
        ensure(math.floor(extent / size + 1 + 1e-9) >= count, '{} pages of {} for {}', count, size, extent)
    for u, v in points:
        x, y = [l + (h - l) * k / 1000 for l, h, k in zip(lower, upper, (u, v))]
        owners = [n for n, i in grid.items() if i.x.inf - scale <= x <= i.x.sup + scale and i.y.inf - scale <= y <= i.y.sup + scale]
        inner = [n for n, i in grid.items() if i.x.inf + scale < x < i.x.sup - scale and i.y.inf + scale < y < i.y.sup - scale]
        ensure(owners, 'the point {} is not covered', (x, y))
        ensure(len(inner) <= 1, 'the point {} is inside of the pages {}', (x, y), inner)
    return None if len(pages) < 2 else ('grid' if rows > 1 and columns > 1 else 'strip')
