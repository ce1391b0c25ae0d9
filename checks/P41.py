"""P41 — Databases of fibres, stitches and standard measurements"""

from pathlib import Path

import contextlib
import io

import yaml

from hypothesis import strategies as st

from Patro.Measurement.StandardMeasurement import Measurement, StandardMeasurement
from Patro.Measurement.ValentinaStandardMeasurement import ValentinaStandardMeasurement
from Patro.TextileTechnology import SewingMachine as machine_module
from Patro.TextileTechnology.Database import Database
from Patro.TextileTechnology.Fabric import Fabric, FabricType, WovenFabric
from Patro.TextileTechnology.Fiber import Fiber, FiberDatabase, FiberType
from Patro.TextileTechnology.Needle import Needle, NeedleSystem, NeedleType
from Patro.TextileTechnology.Seam import AstmSeam
from Patro.TextileTechnology.StitchType import StitchDatabase, StitchType

from pbt.harness import Check, ensure, fail
from pbt.scratch import scratch

check = Check(
    'P41',
    rule='Hypothesis generates data files (YAML of the layout of the shipped ones: fibres with and without a source, stitches of several classes, undefined ones, unknown '
         'numbers, names shared by several stitches), loads several of them in turn and compares the database with a dictionary; the shipped files are read again with PyYAML; '
         'generates histories on a set of measurements (additions, duplicates, lookups, enumeration, dump) against a dictionary, and the attributes of the value objects.  A case '
         'is non-trivial when a database has at least two items, a history a duplicate, an object one attribute.',
    assumptions=['the layout of a data file is that of the shipped one', 'PyYAML reads and writes YAML correctly'],
)

# names that differ by the case, by a prefix, by an accent, and that YAML must quote
WORDS = ['Cotton', 'cotton', 'Cotton 2', 'Linen', 'Lin', 'Soie', 'Whool', 'No', 'yes', '12', '1.5', 'null', 'PLA', 'M-5', 'Élasthanne', 'a: b', '# x', 'Blindstitch', 'Blindstitch 2', '', ' ']
word = st.one_of(st.sampled_from(WORDS), st.text('abAB-éœ ', min_size=1, max_size=6))
count = st.one_of(st.none(), st.integers(0, 12))


def write(data, name):
    path = Path(scratch(), name)
    path.write_text(yaml.safe_dump(data, allow_unicode=True, sort_keys=False), encoding='utf8')
    return path


def compare(database, expected, describe, key):
    """*database* must be the mapping *expected*, in the order of the additions"""
    ensure(len(database) == len(expected), '{} items instead of {}', len(database), len(expected))
    ensure([describe(x) for x in database] == list(expected.values()), 'items {} instead of {}', [describe(x) for x in database], list(expected.values()))
    for name, value in expected.items():
        ensure(describe(database[name]) == value, 'item {!r}: {} instead of {}', name, describe(database[name]), value)
        ensure(key(database[name]) == name, 'key {!r}', name)
    for name in ('missing', -1):
        try:
            database[name]
        except KeyError:
            continue
        fail('found an item {!r}', name)

####################################################################################################

sources = st.dictionaries(word, word, max_size=6)
fiber_file = st.fixed_dictionaries({
    'plant': sources, 'animal': sources,
    'synthetic': st.dictionaries(word, st.one_of(st.none(), st.fixed_dictionaries({}, optional={'source': word, 'comment': word, 'alias': st.lists(word, max_size=2)})), max_size=6)})


def describe_fiber(fiber):
    return fiber.name, fiber.fiber_type, fiber.source_type, fiber.source


def fibers_of(data):
    for section, source_type in (('Plant Fibres', FiberType.Plant), ('Animal Fibres', FiberType.Animal)):
        for name, item in data['Natural Fibres'][section].items():
            yield name, FiberType.Natural, source_type, item['source']
    for name, item in data['Synthetic Fibres'].items():
        yield name, FiberType.Synthetic, None, (item or {}).get('source')


def fiber_key(fiber):
    return fiber.name


@check.facet(st.lists(fiber_file, min_size=1, max_size=3), quick=150)
def fibers(case):
    database = FiberDatabase()
    ensure(len(database) == 0 and list(database) == [], 'a new database is not empty')
    expected = {}
    for i, item in enumerate(case):
        data = {'Natural Fibres': {'Plant Fibres': {name: {'source': source} for name, source in item['plant'].items()},
                                   'Animal Fibres': {name: {'source': source} for name, source in item['animal'].items()}},
                'Synthetic Fibres': item['synthetic']}
        database.load(write(data, 'fiber.yaml'))
        for fiber in fibers_of(data):
            # the first definition is kept
            expected.setdefault(fiber[0], fiber)
        compare(database, expected, describe_fiber, fiber_key)
    return 'files-{}'.format(len(case)) if len(expected) > 1 else None

####################################################################################################

stitch = st.one_of(st.none(), st.fixed_dictionaries(
    {'name': word}, optional={'number_of_needles': count, 'number_of_threads': count, 'number_of_loops': count, 'composition': word, 'astm': st.booleans()}))
stitch_file = st.dictionaries(st.sampled_from([100, 200, 300, 400, 500, 600]), st.dictionaries(st.integers(0, 29), stitch, max_size=6), max_size=4)


def describe_stitch(stitch):
    return stitch.number, stitch.name, stitch.number_of_needles, stitch.number_of_threads, stitch.number_of_loops


def stitches_of(data):
    for group in data['Classes'].values():
        for number, item in group['stitches'].items():
            if item is not None:
                yield number, item['name'], item.get('number_of_needles'), item.get('number_of_threads'), item.get('number_of_loops')


def stitch_key(stitch):
    return stitch.number


@check.facet(st.lists(stitch_file, min_size=1, max_size=3), quick=150)
def stitches(case):
    database = StitchDatabase()
    expected = {}
    for i, item in enumerate(case):
        data = {'Introduction': 'text', 'Classes': {
            'Stitch Class {}'.format(base): {'name': 'Class', 'description': 'text', 'stitches': {base + number: value for number, value in group.items()}}
            for base, group in item.items()}}
        database.load(write(data, 'stitch.yaml'))
        for value in stitches_of(data):
            expected.setdefault(value[0], value)
        compare(database, expected, describe_stitch, stitch_key)
    names = {value[1] for value in expected.values()}
    return None if len(expected) < 2 else 'shared-name' if len(names) < len(expected) else 'names'

####################################################################################################

@check.facet(st.tuples(st.sampled_from(['fiber', 'stitch', 'valentina']), st.integers(1, 2)), quick=4)
def shipped(case):
    kind, times = case
    if kind == 'valentina':
        path = Path(machine_module.__file__).parents[1].joinpath('Measurement', 'data', 'valentina-standard-measurements.yaml')
        data = yaml.safe_load(path.read_text(encoding='utf8'))
        expected = {}
        for topic in data.values():
            for code, (name, full_name, description, value) in topic['measurements'].items():
                expected[name] = (code, name, full_name, description, value)
        for _ in range(times):
            database = ValentinaStandardMeasurement()
        ensure(len(database) > 100, 'only {} measurements', len(database))
        ensure(all(name in database for name in expected) and 'missing' not in database, 'membership')
        compare(database, expected, lambda x: (x.code, x.name, x.full_name, x.description, x.default_value), lambda x: x.name)
    else:
        cls, items, describe, key = {'fiber': (FiberDatabase, fibers_of, describe_fiber, fiber_key), 'stitch': (StitchDatabase, stitches_of, describe_stitch, stitch_key)}[kind]
        data = yaml.safe_load(Path(Database.DEFAULT_DATA_DIRECTORY, cls.DEFAULT_DATA_FILENAME).read_text(encoding='utf8'))
        expected = {}
        for value in items(data):
            expected.setdefault(value[0], value)
        ensure(len(expected) > 20, 'only {} items', len(expected))
        database = cls()
        for _ in range(times):
            # reading again adds nothing
            database.load()
        compare(database, expected, describe, key)
    return kind

####################################################################################################

operation = st.one_of(
    st.tuples(st.just('add'), word, word, word, st.one_of(st.none(), st.integers(-10, 200), st.floats(0, 200))),
    st.tuples(st.just('find'), word),
    st.tuples(st.just('edit'), st.integers(0, 8), word, word, st.integers(0, 9)),
    st.tuples(st.just('dump')))


@check.facet(st.tuples(st.integers(1, 2), st.lists(st.tuples(st.integers(0, 1), operation), min_size=3, max_size=20)), quick=300)
def measurements(case):
    number, history = case
    sets = [StandardMeasurement() for _ in range(number)]
    models = [{} for _ in range(number)]
    label = None
    for which, (action, *args) in history:
        database, model = sets[which % number], models[which % number]
        if action == 'add':
            name, full_name, description, value = args
            if value is None:
                measurement, value = Measurement(name, full_name, description), 0
            else:
                measurement = Measurement(name, full_name, description, value)
            if name in model:
                label = 'duplicate'
                try:
                    database.add(measurement)
                except NameError:
                    pass
                else:
                    fail('accepted {!r} twice', name)
            else:
                database.add(measurement)
                model[name] = (name, full_name, description, value)
        elif action == 'find':
            name, = args
            ensure((name in database) is (name in model), 'membership of {!r}', name)
        elif action == 'edit' and model:
            index, full_name, description, value = args
            name = list(model)[index % len(model)]
            item = database[name]
            item.full_name, item.description, item.default_value = full_name, description, value
            model[name] = (name, full_name, description, value)
        elif action == 'dump':
            output = io.StringIO()
            with contextlib.redirect_stdout(output):
                database.dump()
            expected = ''.join('{}\n- {}\n- {}\n- {}\n\n'.format(*value) for value in model.values())
            ensure(output.getvalue() == expected, 'dump {!r} instead of {!r}', output.getvalue(), expected)
        for database, model in zip(sets, models):
            compare(database, model, lambda x: (x.name, x.full_name, x.description, x.default_value), lambda x: x.name)
    return label

####################################################################################################

MACHINE = {
    'name': word, 'description': word, 'stitch_types': st.lists(st.integers(100, 600), max_size=3), 'number_of_needles': st.integers(1, 4), 'number_of_loopers': st.integers(0, 3),
    'max_sewing_speed': st.integers(100, 9000), 'stitch_length': st.integers(1, 8), 'stitch_width': st.integers(1, 8), 'feed_system': word, 'differential_feed_ratio': st.integers(1, 3),
    'needle_gauge': st.floats(1, 10), 'needle_system': word, 'overedging_width': st.floats(1, 10)}
pair = st.tuples(st.floats(0, 10), st.integers(0, 10))
fabric = st.fixed_dictionaries({'bending': pair, 'stretch': pair, 'shear': st.floats(0, 9), 'friction': st.floats(0, 9), 'weight': st.integers(1, 900), 'pressure': st.floats(0, 9)},
                               optional={'shrinkage': pair})


@check.facet(st.tuples(st.sampled_from(['SS', 'LS', 'BS', 'FS', 'OS', 'EF']), st.text('abcdefgh', min_size=1, max_size=2), st.integers(1, 12),
                       st.fixed_dictionaries({}, optional=MACHINE), fabric, st.tuples(word, word, word, word, st.integers(60, 130), st.one_of(st.none(), st.integers(1, 3)))), quick=400)
def objects(case):
    seam_class, seam_type, rows, machine, fabric, (system_name, system_text, type_name, use, size, multiplicity) = case
    ensure(AstmSeam(seam_class, seam_type, rows).name == '{}{}-{}'.format(seam_class, seam_type, rows), 'seam {}', AstmSeam(seam_class, seam_type, rows).name)
    obj = machine_module.SewingMachine(**machine)
    ensure((obj.name, obj.description) == (machine.get('name'), machine.get('description')), 'machine {!r} {!r}', obj.name, obj.description)
    ensure(WovenFabric(**fabric).__fabric_type__ is FabricType.WovenFabric and Fabric(**fabric).__fabric_type__ is None, 'type of fabric')
    extra = () if multiplicity is None else (multiplicity,)
    system = NeedleSystem(system_name, system_text)
    ensure((system.name, system.description) == (system_name, system_text), 'needle system')
    for module, attribute in ((None, 'nm_size'), (machine_module, 'size')):
        kind = (module.NeedleType if module else NeedleType)(type_name, system_text, use)
        ensure((kind.name, kind.description, kind.fabric_use) == (type_name, system_text, use), 'type of needle')
        needle = (module.Needle if module else Needle)(system, kind, size, *extra)
        ensure(needle.system is system and needle.type is kind and getattr(needle, attribute) == size and needle.multiplicity == (multiplicity or 1), 'needle of size {}', size)
    fiber = Fiber(type_name, FiberType.Natural, None, None if multiplicity is None else use)
    ensure(describe_fiber(fiber) == (type_name, FiberType.Natural, None, None if multiplicity is None else use), 'fibre')
    return 'machine-{}'.format(len(machine)) if machine else None
