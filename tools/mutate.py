#!/opt/venv/bin/python
"""Mutation analysis of the checks: change the code under test one expression at a time, in memory, and
run the facets which execute the changed line.

    mutate.py map OUT                    record which facet executes which line of which function
    mutate.py run MAP OUT [--seed N] [--scale X] [--limit N per function] [--only SUBSTRING] [--jobs N]
    mutate.py show OUT                   list the survivors

It is a tool to look for weak checks: the survivors are read by hand (many are equivalent to the original
code, e.g. in messages of errors).  No check depends on it.
"""

import argparse
import ast
import copy
import gc
import json
import os
import pickle
import random
import signal
import sys
import time
import types
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent

for key, value in dict(
        PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', QT_QPA_PLATFORM='offscreen',
        OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONWARNINGS='ignore',
        MPLCONFIGDIR='/tmp/verif-mpl', XDG_CACHE_HOME='/tmp/verif-mpl', TZ='UTC', LC_ALL='C.UTF-8').items():
    if os.environ.get(key) != value and os.environ.get('MUT_REEXEC') != '1':
        os.environ[key] = value
if os.environ.get('MUT_REEXEC') != '1':
    os.environ['MUT_REEXEC'] = '1'
    os.execve(sys.executable, [sys.executable] + sys.argv, os.environ)

sys.dont_write_bytecode = True
sys.path.insert(0, str(VERIF))

from pbt import harness  # noqa: E402

REPO = harness.REPO
CASE = 6


def load_all():
    import logging
    logging.disable(logging.CRITICAL)
    facets = []
    for path in sorted((VERIF / 'checks').glob('P*.py')):
        check = harness.load_check(path.stem)
        facets += [(path.stem, name) for name in check.facets]
    return facets


def run_facet(pid, name, scale, seed):
    """Return None if it holds, else the reason"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    facet = harness.load_check(pid).facets[name]
    failing = []

    def run_case(case):
        signal.alarm(CASE)
        try:
            facet.function(case)
        except (hypothesis.errors.UnsatisfiedAssumption, hypothesis.errors.StopTest):
            raise
        except BaseException as exception:
            failing.append('{}: {}'.format(type(exception).__name__, str(exception)[:150]))
            raise harness.Violation('x')
        finally:
            signal.alarm(0)

    test = hypothesis.given(facet.strategy)(run_case)
    test = settings(max_examples=max(1, int(facet.quick * scale)), database=None, deadline=None,
                    phases=(Phase.generate,), suppress_health_check=list(HealthCheck),
                    report_multiple_bugs=False, print_blob=False,
                    verbosity=hypothesis.Verbosity.quiet)(test)
    test = hypothesis.seed('{}/{}/{}/{}'.format(pid, name, seed, 0))(test)
    signal.signal(signal.SIGALRM, harness._on_alarm)
    try:
        test()
    except BaseException as exception:
        if not failing:
            return 'HARNESS {} {}: {}: {}'.format(pid, name, type(exception).__name__, str(exception)[:150])
    if failing:
        return '{} {} {}'.format(pid, name, failing[0])
    return None


def forked(function, timeout):
    """Run function in a child, return its picklable result, or a string if it died"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            null = os.open('/dev/null', os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            data = pickle.dumps(function())
            with os.fdopen(w, 'wb') as fh:
                fh.write(data)
        except BaseException as exception:
            try:
                with os.fdopen(w, 'wb') as fh:
                    fh.write(pickle.dumps('DIED ' + repr(exception)[:200]))
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(w)
    import select
    data = b''
    t = time.time() + timeout
    result = None
    while True:
        left = t - time.time()
        if left <= 0:
            result = 'TIMEOUT'
            break
        if select.select([r], [], [], left)[0]:
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            data += chunk
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    os.waitpid(pid, 0)
    if result:
        return result
    return pickle.loads(data) if data else 'DIED'


####################################################################################################

def make_map(facets, out, scale):
    def one(pid, name):
        lines = set()
        m = sys.monitoring
        m.use_tool_id(3, 'cov')

        def line(code, n):
            if '/Patro/' in code.co_filename and code.co_name != '<module>':
                lines.add((code.co_filename[code.co_filename.rindex('/Patro/') + 1:], n))
            return m.DISABLE
        m.register_callback(3, m.events.LINE, line)
        m.set_events(3, m.events.LINE)
        t = time.time()
        error = run_facet(pid, name, scale, 1)
        return time.time() - t, lines, error

    from concurrent.futures import ThreadPoolExecutor
    result = {}
    jobs = [(pid, name) for pid, name in facets]
    # one forked server per job slot: fork from the main thread only
    running = {}
    data = pool_run(jobs, lambda job: forked(lambda: one(*job), 600), 8)
    for job, value in data:
        if isinstance(value, str):
            print(job, value)
            continue
        if value[2]:
            print('FAILS', value[2])
        result[job] = value[:2]
    with open(out, 'wb') as fh:
        pickle.dump(result, fh)


def pool_run(jobs, function, workers, sink=None):
    """Run jobs in forked processes (not a pool: the modules are shared by the fork)"""
    import selectors
    results = []
    jobs = list(jobs)
    index = 0
    sel = selectors.DefaultSelector()
    active = 0

    def spawn(job):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                data = pickle.dumps(function(job))
            except BaseException as exception:
                data = pickle.dumps('DIED ' + repr(exception)[:200])
            with os.fdopen(w, 'wb') as fh:
                fh.write(data)
            os._exit(0)
        os.close(w)
        sel.register(r, selectors.EVENT_READ, dict(job=job, pid=pid, data=b''))

    while index < len(jobs) or active:
        while active < workers and index < len(jobs):
            spawn(jobs[index])
            index += 1
            active += 1
        for key, _ in sel.select():
            chunk = os.read(key.fd, 1 << 20)
            if chunk:
                key.data['data'] += chunk
                continue
            sel.unregister(key.fd)
            os.close(key.fd)
            os.waitpid(key.data['pid'], 0)
            active -= 1
            value = pickle.loads(key.data['data']) if key.data['data'] else 'DIED'
            if sink is not None:
                sink(key.data['job'], value, len(jobs))
            results.append((key.data['job'], value))
    return results


####################################################################################################

COMPARE = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
           ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
           ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BINARY = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult,
          ast.FloorDiv: ast.Div, ast.Mod: ast.Mult, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}
SWAP = {}
for a, b in (('x', 'y'), ('_x', '_y'), ('p0', 'p1'), ('_p0', '_p1'), ('p2', 'p1'), ('_p2', '_p1'), ('p3', 'p2'), ('_p3', '_p2'),
             ('min', 'max'), ('sin', 'cos'), ('tan', 'atan'), ('width', 'height'), ('left', 'right'), ('top', 'bottom'),
             ('inf', 'sup'), ('start', 'stop'), ('start_angle', 'stop_angle'), ('_start_angle', '_stop_angle'),
             ('radius_x', 'radius_y'), ('_radius_x', '_radius_y'), ('append', 'extend'), ('ceil', 'floor'), ('any', 'all'),
             ('first_point', 'last_point'), ('start_point', 'stop_point'), ('degrees', 'radians'), ('floor', 'ceil'),
             ('normal', 'antinormal'), ('dot', 'cross'), ('lower', 'upper'), ('keys', 'values'), ('sorted', 'list'),
             ('r', 'g'), ('red', 'green'), ('red', 'blue')):
    SWAP.setdefault(a, b)
    SWAP.setdefault(b, a)


def is_log(node):
    text = ast.unparse(node)
    return 'logger' in text.split('(')[0] or text.startswith('print(')


def sites(function):
    """Yield (line, description, apply) of a function node; apply edits the tree in place"""
    out = []

    def add(node, what, action):
        out.append((node.lineno, what, action))

    def setter(obj, field, value, index=None):
        def action():
            if index is None:
                setattr(obj, field, value)
            else:
                getattr(obj, field)[index] = value
        return action

    def visit(node, depth=0):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)) and depth:
            if not isinstance(node, ast.Lambda):
                return   # nested: its own site list is skipped for simplicity, see below
        if isinstance(node, ast.Raise):
            return
        if isinstance(node, ast.Expr) and (isinstance(node.value, ast.Constant) or is_log(node)):
            return
        if isinstance(node, ast.Compare):
            for i, op in enumerate(node.ops):
                for new in COMPARE.get(type(op), ()):
                    add(node, '{} -> {}'.format(type(op).__name__, new.__name__), setter(node, 'ops', new(), i))
        elif isinstance(node, ast.BinOp):
            new = BINARY.get(type(node.op))
            if new and not (isinstance(node.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(node.left, 'value', ''), str)):
                add(node, '{} -> {}'.format(type(node.op).__name__, new.__name__), setter(node, 'op', new()))
        elif isinstance(node, ast.AugAssign):
            new = BINARY.get(type(node.op))
            if new:
                add(node, 'aug {} -> {}'.format(type(node.op).__name__, new.__name__), setter(node, 'op', new()))
        elif isinstance(node, ast.BoolOp):
            new = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            add(node, 'boolop', setter(node, 'op', new))
            for i in range(len(node.values)):
                if len(node.values) > 1:
                    rest = node.values[:i] + node.values[i + 1:]
                    add(node, 'drop operand {}'.format(i), setter(node, 'values', rest))
        elif isinstance(node, ast.UnaryOp):
            if isinstance(node.op, ast.USub):
                add(node, 'drop minus', setter(node, 'op', ast.UAdd()))
        elif isinstance(node, ast.Constant):
            v = node.value
            if v is True or v is False:
                add(node, '{} -> {}'.format(v, not v), setter(node, 'value', not v))
            elif isinstance(v, (int, float)):
                add(node, '{} -> {}'.format(v, v + 1), setter(node, 'value', v + 1))
                if v:
                    add(node, '{} -> 0'.format(v), setter(node, 'value', 0))
            elif isinstance(v, str) and 0 < len(v) < 30:
                add(node, '{!r} -> changed'.format(v), setter(node, 'value', v + 'x'))
        elif isinstance(node, ast.Attribute):
            if node.attr in SWAP and isinstance(node.ctx, ast.Load):
                add(node, '.{} -> .{}'.format(node.attr, SWAP[node.attr]), setter(node, 'attr', SWAP[node.attr]))
        elif isinstance(node, ast.Name):
            if node.id in SWAP and isinstance(node.ctx, ast.Load):
                add(node, '{} -> {}'.format(node.id, SWAP[node.id]), setter(node, 'id', SWAP[node.id]))
        elif isinstance(node, ast.Call):
            if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args[:2]):
                add(node, 'swap args', setter(node, 'args', [node.args[1], node.args[0]] + node.args[2:]))
            for i, keyword in enumerate(node.keywords):
                if keyword.arg:
                    add(node, 'drop keyword ' + keyword.arg,
                        setter(node, 'keywords', node.keywords[:i] + node.keywords[i + 1:]))
        elif isinstance(node, (ast.If, ast.IfExp, ast.While)):
            if isinstance(node, ast.If):
                add(node, 'if True', setter(node, 'test', ast.copy_location(ast.Constant(True), node.test)))
            if not isinstance(node, ast.While):
                add(node, 'if False', setter(node, 'test', ast.copy_location(ast.Constant(False), node.test)))
        elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            if node.slice.lower is not None:
                add(node, 'drop lower', setter(node.slice, 'lower', None))
            if node.slice.upper is not None:
                add(node, 'drop upper', setter(node.slice, 'upper', None))
        elif isinstance(node, (ast.List, ast.Tuple)) and isinstance(getattr(node, 'ctx', None), ast.Load):
            if len(node.elts) >= 2:
                add(node, 'drop element', setter(node, 'elts', node.elts[:-1]))
                add(node, 'swap elements', setter(node, 'elts', [node.elts[1], node.elts[0]] + node.elts[2:]))
        elif isinstance(node, ast.Return) and node.value is not None and depth:
            if not isinstance(node.value, ast.Constant):
                add(node, 'return None', setter(node, 'value', ast.copy_location(ast.Constant(None), node.value)))
        elif isinstance(node, ast.Dict) and node.keys:
            for i in range(len(node.keys)):
                def action(node=node, i=i):
                    del node.keys[i]
                    del node.values[i]
                add(node, 'drop dict item {}'.format(i), action)
        for field in ('body', 'orelse', 'finalbody'):
            block = getattr(node, field, None)
            if isinstance(block, list):
                for i, statement in enumerate(block):
                    if isinstance(statement, (ast.Expr, ast.Assign, ast.AugAssign, ast.Break, ast.Continue, ast.Delete)) \
                            or (isinstance(statement, ast.Raise) and statement.exc is not None):
                        if isinstance(statement, ast.Expr) and (isinstance(statement.value, ast.Constant) or is_log(statement)):
                            continue
                        new = ast.copy_location(ast.Pass(), statement)
                        add(statement, 'delete: ' + ast.unparse(statement)[:60], setter(node, field, new, i))
        for child in ast.iter_child_nodes(node):
            if child in getattr(node, 'decorator_list', ()):
                continue
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and child is node.args:
                continue    # the defaults are evaluated at the definition
            if child is getattr(node, 'returns', None):
                continue
            visit(child, depth + 1)

    visit(function)
    return out


def code_index(code, out):
    out[(code.co_qualname, code.co_firstlineno)] = code
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            code_index(const, out)


def functions_of(tree):
    for node in ast.walk(tree):
        if isinstance(node, ast.ClassDef) or isinstance(node, ast.Module):
            for child in node.body:
                if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield child


def live_functions():
    result = {}
    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType) and '/Patro/' in obj.__code__.co_filename:
            code = obj.__code__
            name = code.co_filename[code.co_filename.rindex('/Patro/') + 1:]
            result.setdefault((name, code.co_qualname, code.co_firstlineno), []).append(obj)
    return result


def enumerate_mutants(files, limit, rng):
    mutants = []
    for name in files:
        source = (REPO / name).read_text()
        tree = ast.parse(source)
        for number, function in enumerate(functions_of(tree)):
            n = len(sites(function))
            chosen = range(n) if limit is None or n <= limit else sorted(rng.sample(range(n), limit))
            mutants += [(name, number, i) for i in chosen]
    return mutants


def run_mutant(job, line_map, live, scale, seed):
    name, number, index = job
    source = (REPO / name).read_text()
    tree = ast.parse(source)
    function = list(functions_of(tree))[number]
    lineno, what, action = sites(function)[index]
    first = min([function.lineno] + [x.lineno for x in function.decorator_list])
    span = range(first, function.end_lineno + 1)
    facets = line_map.get((name, lineno))
    if facets is None:
        # a line of a multi-line statement
        for back in range(lineno, max(lineno - 12, function.lineno) - 1, -1):
            facets = line_map.get((name, back))
            if facets:
                break
    description = dict(file=name, line=lineno, function=function.name, what=what)
    if not facets:
        return dict(description, status='uncovered')
    original = compile(ast.parse(source), str(REPO / name), 'exec')
    try:
        action()
        ast.fix_missing_locations(tree)
        mutated = compile(tree, str(REPO / name), 'exec')
    except Exception as exception:
        return dict(description, status='invalid ' + str(exception)[:80])
    before, after = {}, {}
    code_index(original, before)
    code_index(mutated, after)
    count = 0
    for key, code in before.items():
        if key[1] not in span or '<locals>' in key[0] or '<listcomp>' in key[0] or key[0] == '<module>':
            continue
        if key[0].split('.')[-1] != function.name:
            continue
        new = after.get(key)
        if new is None or new.co_freevars != code.co_freevars:
            return dict(description, status='invalid')
        for obj in live.get((name,) + key, ()):
            obj.__code__ = new
            count += 1
    if not count:
        return dict(description, status='no function')
    killers = []
    for cost, pid, facet in facets:
        reason = run_facet(pid, facet, scale, seed)
        if reason:
            killers.append(reason)
            if not reason.startswith('HARNESS'):
                return dict(description, status='killed', by=reason)
    if killers:
        return dict(description, status='harness', by=killers)
    return dict(description, status='survived', facets=[p + ' ' + f for _, p, f in facets])


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('command')
    parser.add_argument('files', nargs='+')
    parser.add_argument('--seed', type=int, default=1)
    parser.add_argument('--scale', type=float, default=.3)
    parser.add_argument('--limit', type=int)
    parser.add_argument('--only', default='')
    parser.add_argument('--jobs', type=int, default=8)
    parser.add_argument('--again', help='run only the survivors of this file')
    args = parser.parse_args()
    if args.command == 'map':
        make_map(load_all(), args.files[0], args.scale)
    elif args.command == 'run':
        facets_map = pickle.load(open(args.files[0], 'rb'))
        line_map = {}
        for (pid, facet), (cost, lines) in facets_map.items():
            for line in lines:
                line_map.setdefault(line, []).append((cost, pid, facet))
        anchors = {}
        for text in (VERIF / 'properties.jsonl').read_text().splitlines():
            entry = json.loads(text)
            anchors[entry['id']] = json.dumps(entry)
        for (name, _), value in line_map.items():
            # first the properties anchored in this file
            value.sort(key=lambda x: (Path(name).name not in anchors[x[1]], x[0]))
            total = 0
            for i, x in enumerate(value):
                total += x[0]
                if total > 30:
                    del value[i + 1:]
                    break
        load_all()
        live = live_functions()
        files = sorted({name for name, _ in line_map})
        if args.only:
            files = [x for x in files if any(o in x for o in args.only.split(','))]
        rng = random.Random(args.seed)
        if args.again:
            mutants = [tuple(json.loads(line)['job']) for line in open(args.again)
                       if json.loads(line)['status'] in ('survived', 'harness', 'timeout', 'died')]
        else:
            mutants = enumerate_mutants(files, args.limit, rng)
            rng.shuffle(mutants)
        print(len(mutants), 'mutants', flush=True)
        fh = open(args.files[1], 'a')
        counts = {}
        t0 = time.time()

        def sink(job, value, total):
            if isinstance(value, str):
                value = dict(file=job[0], status='timeout' if value == 'TIMEOUT' else 'died', by=value)
            value['job'] = job
            fh.write(json.dumps(value) + '\n')
            fh.flush()
            counts[value['status'].split(' ')[0]] = counts.get(value['status'].split(' ')[0], 0) + 1
            n = sum(counts.values())
            if n % 100 == 0:
                print(n, '/', total, counts, int(time.time() - t0), 's', flush=True)

        gc.freeze()
        pool_run(mutants, lambda job: forked(lambda: run_mutant(job, line_map, live, args.scale, args.seed), 150),
                 args.jobs, sink)
        print(counts)
    else:
        rows = [json.loads(line) for line in open(args.files[0])]
        rows = [r for r in rows if r['status'] in ('survived', 'harness', 'uncovered', 'timeout', 'died')]
        rows.sort(key=lambda r: (r['file'], r.get('line', 0)))
        lines = {}
        last = None
        for r in rows:
            if r['status'] == 'uncovered' or 'line' not in r:
                continue
            src = lines.setdefault(r['file'], (REPO / r['file']).read_text().split('\n'))
            key = (r['file'], r['line'])
            if key != last:
                print('{}:{} {}'.format(r['file'][6:], r['line'], src[r['line'] - 1].strip()[:110]))
                last = key
            print('      {}{}'.format(r['what'], '' if r['status'] == 'survived' else '   [{}] {}'.format(r['status'], r['by'])))


if __name__ == '__main__':
    main()
