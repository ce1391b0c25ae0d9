"""P38 — From pattern and measurement files to drawings"""

import contextlib
import io
from pathlib import Path

from hypothesis import strategies as st

from Patro.FileFormat.Valentina.Pattern import ValFileReader, ValFileWriter
from Patro.GraphicStyle import Colors
from Patro.Pattern.SketchStyle import DetailSketchStyle

from checks import P26, P33
from pbt import sketches
from pbt.harness import Check, ensure
from pbt.scratch import scratch

check = Check(
    'P38',
    rule='Hypothesis generates patterns of one to three pieces (see P26), which are written in Valentina files by the check. The library reads them, possibly writes and reads the pattern again, evaluates the sketches, '
         'makes their detail scenes and exports them to TeX, SVG, PDF and DXF. The files are read by the independent readers of P33 and compared with the positions computed by the model of P29. '
         'The second piece may be the first one drawn from other points. A case is non-trivial when it has at least four operations of three kinds.',
    assumptions=['see P26, P29 and P33', 'tiled documents have at most 60 tiles'],
)

OUTPUTS = ('tex', 'tiles', 'svg', 'pdf', 'dxf')


def expected_items(operations, model, style, colors):
    """List of (kind, points, style, text) as in P33"""
    result = []
    black = (0, 0, 0)
    for op, color in zip(operations, colors):
        position = model.evaluate(op)
        line = None
        if 'name' in op:
            p = position[:2]
            dx, dy = op['label_offset']
            q = (p[0] + dx, p[1] - dy)
            result.append(('dot', [p], None, None))
            result.append(('segment', [p, q], ('SolidLine', style.label_line_width, black), None))
            result.append(('text', [q], None, op['name']))
            start = {'EndLinePoint': 'base_point', 'AlongLinePoint': 'first_point', 'NormalPoint': 'first_point'}.get(op['class'])
            if start:
                line = ('segment', [model.points[op[start]][:2], p], style.construction_line_width)
        elif op['class'] == 'Line':
            line = ('segment', [model.points[op[x]][:2] for x in ('first_point', 'second_point')], style.line_width)
        else:
            line = ('cubic', [model.points[op['first_point']][:2], position[0][:2], position[1][:2], model.points[op['second_point']][:2]], style.line_width)
        if line:
            rgb = P33.rgb_of(color) if op['line_color'] else black
            result.append((line[0], line[1], (op['line_style'] or 'SolidLine', line[2], rgb), None))
    return result


def twin_of(measurements, operations, shifts):
    """The same piece from other points, None if it is not well-conditioned"""
    result, model, i = [], sketches.Model(measurements), 0
    for op in operations:
        if op['class'] == 'SinglePoint':
            op = dict(op, **{axis: op[axis] + shift for axis, shift in zip('xy', shifts[i % len(shifts)]) if isinstance(op[axis], (int, float))})
            i += 1
        if model.evaluate(op) is None:
            return None
        result.append(op)
    return result


def rgb_name(color):
    return '#ff8800' if color == '#f80' else P26.RGB.get(color, str(Colors.ensure_color(color)))


def write_files(directory, measurements, pieces, colors, reverse):
    directory.joinpath('measurements.vit').write_bytes(P26.vit(measurements))
    lines = ["<?xml version='1.0' encoding='UTF-8'?>", '<pattern>', '<version>0.4.0</version>', '<unit>cm</unit>', '<notes/>', '<measurements>measurements.vit</measurements>', '<increments/>']
    number = 0
    for name, operations in pieces:
        lines.append('<draw name={}>\n<calculation>'.format(P26.quoteattr(name)))
        ids = {}
        for op, color in zip(operations, colors):
            number += 1
            ids['self'] = number
            if 'name' in op:
                ids[op['name']] = number
            lines.append(P26.element(op, ids, color, reverse))
        lines.append('</calculation>\n<modeling/>\n<details/>\n<groups/>\n</draw>')
    lines.append('</pattern>')
    path = directory.joinpath('pattern.val')
    path.write_text('\n'.join(lines), encoding='utf8')
    return path


@check.facet(st.tuples(P26.patterns(), st.one_of(st.none(), st.none(), st.lists(st.tuples(st.integers(-9, 9), st.integers(1, 9)), min_size=1, max_size=3)), st.booleans(), st.lists(st.sampled_from(['black', 'darkBlue', 'deeppink', 'darkGreen', '#12AbcD', '#f80']), min_size=20, max_size=20), st.booleans(),
                       st.one_of(st.none(), st.tuples(st.integers(1, 90), st.integers(1, 90), st.integers(1, 90))), st.tuples(st.sampled_from(OUTPUTS), st.sampled_from(OUTPUTS)),
                       st.tuples(st.sampled_from(['A4', 'A3', 'A0']), st.sampled_from(['portrait', 'landscape']), st.integers(0, 20))), quick=260, shards=4)
def drawings(case):
    pieces, shifts, reverse, colors, again, settings, outputs, paper = case
    twin = twin_of(pieces[0][1], pieces[0][2], shifts) if shifts else None
    if twin:
        measurements, pieces = pieces[0][1], [pieces[0][::2], ('twin', twin)]
    else:
        measurements, pieces = P26.common(pieces)
    directory = Path(scratch())
    path = write_files(directory, measurements, pieces, colors, reverse)
    with contextlib.redirect_stdout(io.StringIO()):
        reader = ValFileReader(path)
        if again:
            copy = directory.joinpath('copy.val')
            ValFileWriter(copy, reader.vit_file, reader.pattern)
            reader = ValFileReader(copy)
    if settings is None:
        style = kwargs = None
    else:
        style = kwargs = DetailSketchStyle(line_width=settings[0] / 10, construction_line_width=settings[1] / 10, label_line_width=settings[2] / 10)
    scopes = list(reader.pattern.scopes)
    ensure(len(scopes) == len(pieces), '{} pieces', len(scopes))
    for scope, (name, operations) in zip(scopes, pieces):
        model = sketches.Model(measurements)
        expected = expected_items(operations, model, style or DetailSketchStyle(), [rgb_name(c) for c in colors])
        scene = scope.sketch.detail_scene(**({} if kwargs is None else dict(style=kwargs)))
        b = scene.bounding_box
        box = tuple(float(x) for x in (b.x.inf, b.y.inf, b.x.sup, b.y.sup))
        for x, y, _ in model.points.values():
            ensure(box[0] - 1e-6 <= x <= box[2] + 1e-6 and box[1] - 1e-6 <= y <= box[3] + 1e-6, 'bounding box {}', box)
        for kind, points, _, _ in expected:
            if kind == 'cubic':
                for i in range(1, 20):
                    t = i / 20
                    x, y = (sum(c * p[k] for c, p in zip(((1 - t)**3, 3 * (1 - t)**2 * t, 3 * (1 - t) * t**2, t**3), points)) for k in (0, 1))
                    ensure(box[0] - 1e-6 <= x <= box[2] + 1e-6 and box[1] - 1e-6 <= y <= box[3] + 1e-6, 'curve out of the bounding box {}', box)
        for output in sorted(set(outputs)):
            export(output, scene, expected, {p: xy[:2] for p, xy in model.points.items()}, box, paper)
    return P26.label(pieces) if twin is None else P26.label(pieces) and 'twin ' + P26.label(pieces)


def export(output, scene, expected, named, box, paper):
    if output == 'tex':
        P33.export_tex(scene, expected, named, box, paper, 'one', True)
    elif output == 'tiles':
        size = P33.PaperSize(*paper)
        tiles = 1.
        for axis, length in ((0, size.width), (1, size.height)):
            tiles *= 1 + 10 * (box[2 + axis] - box[axis] + 2) / (length - 2 * paper[2] - 4)
        if tiles < 60:
            P33.export_tex(scene, expected, named, box, paper, 'tiled', False)
    elif output == 'svg':
        P33.export_svg(scene, expected, box, paper)
    elif output == 'pdf':
        P33.export_pdf(scene, expected, box, paper, False)
    else:
        P33.export_dxf(scene, expected, paper, None)
