"""P42 — Common helpers: files, dates, numbers, names, personal data"""

import argparse
import math
import os
import shutil
from datetime import date, datetime
from fractions import Fraction
from pathlib import Path

from hypothesis import strategies as st

from Patro.Common import Path as path_tools
from Patro.Common.ArgparseAction import PathAction
from Patro.Common.Datetime import ensure_date, ensure_datetime
from Patro.Common.Math import Functions
from Patro.Common.Object import ObjectNameMixin
from Patro.Config import ConfigInstall
from Patro.Measurement.PersonalData import Gender, PersonalData

from pbt.harness import Check, ensure, fail
from pbt.scratch import scratch

check = Check(
    'P42',
    rule='Hypothesis generates trees of directories with files of the same or similar names, and lists of directories to search; paths and numbers of parents; dates and times, valid '
         'or not; numbers (neighbours of limits included); command lines; histories of settings of personal data.  The oracles are a walk over the generated tree, the components of the path, '
         'datetime, rational arithmetic, and a dictionary.  A case is non-trivial when the file is in a subdirectory or in several directories, a date is given as text, a number is not an integer.',
    assumptions=['directories without links', 'dates of four digit years'],
)

# names that differ by the case, a prefix or an extension
NAMES = ['logging.yml', 'Logging.yml', 'logging.yml.bak', 'logging', 'a', 'A', 'a.yml', 'b', '.a', 'a b', 'a.b.c']
DIRECTORIES = ['d', 'D', 'd1', 'd d', 'logging.yml']


def node(depth):
    files = st.lists(st.sampled_from(NAMES), max_size=3, unique=True)
    children = st.just({}) if depth == 0 else st.dictionaries(st.sampled_from(DIRECTORIES), node(depth - 1), max_size=2)
    return st.tuples(files, children)


def make(path, tree):
    files, children = tree
    path.mkdir()
    for name, child in children.items():
        make(path / name, child)
    for name in files:
        if name not in children:
            (path / name).write_text('x')


def depth_of(tree, name):
    """Least number of directories above a file"""
    files, children = tree
    if name in files and name not in children:
        return 0
    depths = [depth_of(child, name) for child in children.values()]
    return min((d + 1 for d in depths if d is not None), default=None)


def has(tree, name, parts):
    files, children = tree
    if parts:
        return parts[0] in children and has(children[parts[0]], name, parts[1:])
    return name in files and name not in children


@st.composite
def plant(draw, tree, name):
    """The tree with the file at some places"""
    files, children = tree
    files = [x for x in files if x != name] + ([name] if draw(st.booleans()) else [])
    return files, {key: draw(plant(child, name)) for key, child in children.items()}


@st.composite
def forests(draw):
    trees = draw(st.lists(node(2), min_size=1, max_size=3))
    name = draw(st.sampled_from(NAMES + DIRECTORIES))
    if draw(st.booleans()):
        trees = [draw(plant(tree, name)) for tree in trees]
    return trees, name


@check.facet(st.tuples(forests(), st.sampled_from(['list', 'tuple', 'paths', 'str', 'path', 'bytes', 'missing'])), quick=500)
def find(case):
    (trees, name), mode = case
    base = Path(scratch(), 'find')
    if base.exists():
        shutil.rmtree(base)
    base.mkdir()
    roots = []
    for i, tree in enumerate(trees):
        roots.append(base / 'root{}'.format(i))
        make(roots[-1], tree)
    if mode in ('str', 'path', 'bytes'):
        # a single directory
        trees = trees[:1]
    directories = {'list': [str(x) for x in roots], 'tuple': tuple(str(x) for x in roots), 'paths': roots, 'str': str(roots[0]), 'path': roots[0], 'bytes': os.fsencode(roots[0]),
                   'missing': [str(base / 'missing')] + [str(x) for x in roots]}[mode]
    wanted = os.fsencode(name) if mode == 'bytes' else name
    expected = [i for i, tree in enumerate(trees) if depth_of(tree, name) is not None]
    if not expected:
        try:
            path = path_tools.find(wanted, directories)
        except NameError:
            return None
        fail('found {} which is missing', path)
    path = Path(os.fsdecode(path_tools.find(wanted, directories)))
    # in the first directory which has it
    root = roots[expected[0]]
    ensure(path.is_file() and path.name == name, 'found {} instead of {}', path, name)
    ensure(root in path.parents, 'found {} instead of a file in {}', path, root)
    parts = path.relative_to(root).parts[:-1]
    for i in range(len(parts)):
        ensure(not has(trees[expected[0]], name, parts[:i]), 'found {} instead of one above', path)
    return ['several'] if len(expected) > 1 else ['deep'] if parts else None

####################################################################################################

component = st.sampled_from(['a', 'b c', 'd.yml', '.e', 'é'])


@check.facet(st.tuples(st.lists(component, min_size=1, max_size=5), st.integers(0, 6), st.booleans(), st.sampled_from(['plain', 'dot', 'dots', 'slash', 'home', 'relative'])), quick=300)
def paths(case):
    parts, step, absolute, mode = case
    text = ('/' if absolute else '') + '/'.join(parts)
    expected = parts[:max(len(parts) - step, 0)]
    parent = path_tools.parent_directory_of(text, step)
    ensure(parent == (('/' if absolute else '') + '/'.join(expected) if expected or not absolute else '/'), 'parent {} of {}: {!r}', step, text, parent)
    if step == 1:
        ensure(path_tools.parent_directory_of(text) == parent, 'default step')
    home = os.environ.get('HOME')
    work = os.getcwd()
    os.environ['HOME'] = '/home/somebody'
    try:
        joined = '/'.join(parts)
        given, expected = {
            'plain': ('/' + joined, '/' + joined), 'dot': ('/./' + joined + '/.', '/' + joined), 'dots': ('/x/../' + joined, '/' + joined), 'slash': ('/' + joined + '/', '/' + joined),
            'home': ('~/' + joined, '/home/somebody/' + joined), 'relative': (joined, work.rstrip('/') + '/' + joined)}[mode]
        ensure(path_tools.to_absolute_path(given) == expected, 'absolute path of {}: {}', given, path_tools.to_absolute_path(given))
    finally:
        if home is None:
            del os.environ['HOME']
        else:
            os.environ['HOME'] = home

    # arguments of the command line
    parser = argparse.ArgumentParser()
    parser.add_argument('path', action=PathAction)
    parser.add_argument('--option', action=PathAction, default=None)
    parser.add_argument('--maybe', nargs='?', action=PathAction, default='default')
    parser.add_argument('--many', nargs='*', action=PathAction)
    arguments = [text]
    if step > 0:
        arguments += ['--option', parts[0]]
    if step > 1:
        arguments += ['--maybe']
    if step > 2:
        arguments += ['--many'] + parts
    result = parser.parse_args(arguments)
    ensure(result.path == Path(text), 'argument {!r}', result.path)
    ensure(result.option == (Path(parts[0]) if step > 0 else None), 'option {!r}', result.option)
    ensure(result.maybe == (None if step > 1 else 'default'), 'option without value {!r}', result.maybe)
    ensure(result.many == ([Path(x) for x in parts] if step > 2 else None), 'list of paths {!r}', result.many)
    return mode if step else None

####################################################################################################

day = st.dates(min_value=date(1000, 1, 1))
time = st.datetimes(min_value=datetime(1000, 1, 1))
BAD_DATES = ['', '2020-13-01', '2020-02-30', '01/02/2020', '2020-01-01T00:00:00', '2020-01-01 ', 'x']
BAD_TIMES = ['', '2020-01-01', '2020-01-01T25:00:00.0Z', '01/02/2020 10:00', '2020-02-30T00:00:00.000Z', 'x']
bad_date = st.sampled_from(BAD_DATES)
bad_time = st.sampled_from(BAD_TIMES)


def refused(function, value):
    try:
        result = function(value)
    except ValueError:
        return
    fail('{!r} is {!r}', value, result)


@check.facet(st.tuples(day, time, bad_date, bad_time), quick=600)
def dates(case):
    d, t, wrong_date, wrong_time = case
    ensure(ensure_date(d) is d and ensure_datetime(t) is t, 'a date is kept')
    result = ensure_date(d.isoformat())
    ensure(type(result) is date and result == d, '{} is {!r}', d, result)
    text = t.strftime('%Y-%m-%dT%H:%M:%S.') + '{:06d}Z'.format(t.microsecond)
    result = ensure_datetime(text)
    ensure(type(result) is datetime and result == t, '{} is {!r}', text, result)
    short = t.replace(microsecond=t.microsecond // 1000 * 1000)
    ensure(ensure_datetime(text[:-4] + 'Z') == short, 'milliseconds of {}', text)
    refused(ensure_date, wrong_date)
    refused(ensure_datetime, wrong_time)
    return 'microseconds' if t.microsecond % 1000 else 'other'

####################################################################################################

number = st.one_of(st.integers(-10**6, 10**6), st.integers(-4000, 4000).map(lambda i: i / 2), st.floats(-1e9, 1e9),
                   st.sampled_from([1., -1., 0., -0., .5, -.5, 1.5, 2.5]).flatmap(lambda x: st.sampled_from([x, math.nextafter(x, 9), math.nextafter(x, -9)])))


@check.facet(st.tuples(number, number, st.sampled_from([None, 0, 1e-6, .5, 10])), quick=2000)
def numbers(case):
    a, b, epsilon = case
    x, y = Fraction(a), Fraction(b)
    value = Functions.rint(a)
    floor = math.floor(x)
    rest = x - floor
    expected = floor if rest < Fraction(1, 2) else floor + 1 if rest > Fraction(1, 2) else floor + floor % 2
    ensure(type(value) is int and value == expected, 'rint({!r}) = {!r}', a, value)
    value = Functions.ceil_int(a)
    ensure(type(value) is int and value == math.ceil(x), 'ceil_int({!r}) = {!r}', a, value)
    ensure(Functions.cmp(a, b) == (1 if x > y else -1 if x < y else 0), 'cmp({!r}, {!r}) = {!r}', a, b, Functions.cmp(a, b))
    middle = (x + y) / 2
    ensure(abs(Fraction(Functions.middle(a, b)) - middle) <= abs(middle) * Fraction(1, 2**50) + max(abs(x), abs(y)) * Fraction(1, 2**52) + Fraction(1, 10**300), 'middle of {!r} and {!r}: {!r}', a, b, Functions.middle(a, b))
    if a:
        ensure(Functions.sign(a) == (-1 if x < 0 else 1), 'sign({!r}) = {!r}', a, Functions.sign(a))
    value = Functions.trignometric_clamp(a)
    ensure(value == max(Fraction(-1), min(Fraction(1), x)), 'clamp({!r}) = {!r}', a, value)
    ensure(bool(Functions.is_in_trignometric_range(a)) == (-1 <= x <= 1), 'range of {!r}', a)
    e = Fraction(1e-3 if epsilon is None else epsilon)
    near = Functions.epsilon_float(a, b) if epsilon is None else Functions.epsilon_float(a, b, epsilon)
    if abs(abs(x - y) - e) > Fraction(1, 10**6) * max(abs(x), abs(y), 1) * Fraction(1, 10**6):
        ensure(bool(near) == (abs(x - y) <= e), '{!r} and {!r} at {!r}: {!r}', a, b, epsilon, near)
    return None if x.denominator == 1 else 'exact-half' if rest == Fraction(1, 2) else 'float'

####################################################################################################

text = st.text('abé ', max_size=4)
setting = st.one_of(
    st.tuples(st.sampled_from(['first_name', 'last_name', 'email', 'comment']), st.one_of(text, st.integers(0, 9))),
    st.tuples(st.just('birth_date'), st.one_of(st.none(), day, day.map(lambda d: d.isoformat()))),
    st.tuples(st.just('measurement_date'), st.one_of(st.none(), time, time.map(lambda t: t.strftime('%Y-%m-%dT%H:%M:%S.') + '{:06d}Z'.format(t.microsecond)))),
    st.tuples(st.just('gender'), st.one_of(st.sampled_from(list(Gender)), st.sampled_from(['female', 'MALE', 'Unknown', 'particular']), st.integers(1, 4))),
    st.tuples(st.just('birth_date'), bad_date), st.tuples(st.just('measurement_date'), bad_time), st.tuples(st.just('gender'), st.sampled_from(['', 'other', 0, 5])))
DEFAULT = {'first_name': '', 'last_name': '', 'birth_date': None, 'measurement_date': None, 'gender': Gender.UNKNOWN, 'email': '', 'comment': ''}


def convert(key, value):
    """The value kept, raises ValueError or KeyError"""
    if key == 'birth_date':
        return date.fromisoformat(value) if isinstance(value, str) else value
    if key == 'measurement_date':
        return datetime.fromisoformat(value[:-1]) if isinstance(value, str) else value
    if key == 'gender':
        return {x.name: x for x in Gender}[value.upper()] if isinstance(value, str) else Gender(value)
    return str(value)


@check.facet(st.tuples(st.lists(setting, max_size=4), st.lists(setting, max_size=8)), quick=400)
def personal(case):
    arguments, history = case
    bad = lambda key, value: value in BAD.get(key, ())
    arguments = {key: value for key, value in arguments if not bad(key, value)}
    other = PersonalData()
    person = PersonalData(**arguments)
    model = dict(DEFAULT)
    for key, value in arguments.items():
        model[key] = convert(key, value)
    label = None
    for key, value in [(None, None)] + history:
        if key is not None:
            if bad(key, value):
                try:
                    setattr(person, key, value)
                except (ValueError, KeyError):
                    label = 'refused'
                else:
                    fail('{} accepts {!r}', key, value)
            else:
                setattr(person, key, value)
                model[key] = convert(key, value)
                label = label or 'set'
        for name, expected in model.items():
            found = getattr(person, name)
            ensure(found == expected and type(found) is type(expected), '{} is {!r} instead of {!r}', name, found, expected)
    for name, expected in DEFAULT.items():
        ensure(getattr(other, name) == expected, 'default {} is {!r}', name, getattr(other, name))
    return label


BAD = {'birth_date': BAD_DATES, 'measurement_date': BAD_TIMES, 'gender': ['', 'other', 0, 5]}

####################################################################################################

class Named(ObjectNameMixin):
    pass


@check.facet(st.lists(st.one_of(st.none(), text, st.integers(0, 99)), min_size=1, max_size=4), quick=200)
def names(case):
    objects = [Named(value) for value in case] + [Named()]
    expected = [None if value is None else str(value) for value in case] + [None]
    for obj, name in zip(objects, expected):
        ensure(obj.name == name and type(obj.name) is type(name), 'name {!r} instead of {!r}', obj.name, name)
        ensure(repr(obj) == 'Named {}'.format(name) and (name is None or str(obj) == name), 'texts {!r} {!r} of {!r}', str(obj), repr(obj), name)
        str(obj)
    for value in case:
        objects[-1].name = value
        ensure(objects[-1].name == (None if value is None else str(value)), 'renamed {!r} instead of {!r}', objects[-1].name, value)
    path = Path(ConfigInstall.Logging.find(ConfigInstall.Logging.default_config_file))
    ensure(path == ConfigInstall.Path.config_directory / 'logging.yml' and path.is_file(), 'logging configuration {}', path)
    system = ConfigInstall.OsFactory()
    ensure((system.name, system.on_linux, system.on_windows, system.on_osx) == ('linux', True, False, False), 'system {}', system.name)
    return 'names' if len(case) > 1 else None
