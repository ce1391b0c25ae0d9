"""Construction of Patro sketches from plain data"""

from Patro.GeometryEngine.Vector import Vector2D
from Patro.GraphicStyle import Colors, StrokeStyle
from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
from Patro.Pattern.Pattern import Pattern

from . import sketches


def make_pattern(measurements):
    measurement_set = ValentinaMeasurements()
    for name, value in measurements:
        measurement_set.add(name, value)
    return Pattern(measurement_set, 'cm')


def add_operation(sketch, op, reference=lambda name: name, **extra):
    """Add an operation; *reference* maps the name of a point to the given reference"""
    kwargs = dict(extra)
    for key, value in op.items():
        if key in ('class',):
            continue
        if key in sketches.REFERENCES:
            kwargs[key] = reference(value)
        elif key in sketches.EXPRESSIONS:
            kwargs[key] = sketches.text(value)
        elif key == 'label_offset':
            kwargs[key] = Vector2D(*value)
        elif key == 'line_style':
            kwargs[key] = None if value is None else StrokeStyle[value]
        elif key == 'line_color':
            kwargs[key] = Colors.ensure_color(value)
        else:
            kwargs[key] = value
    return getattr(sketch, op['class'])(**kwargs)
