"""Small property-based testing harness on top of Hypothesis.

A *check* (one per property, module ``checks/<ID>.py``) is a list of *facets*.  A facet couples a
Hypothesis strategy producing **plain data** (numbers, strings, lists, tuples, dicts, None) with an
oracle function.  The function raises if the code under test breaks the property on that case, and
returns a label (any truthy value) when the case is non-trivial, else ``None``.

Outcome of a run::

  exit 0   property held on everything explored (known findings are printed, not raised)
  exit 1   ``VIOLATION property=<id> replay=<path>``; the replay file holds the shrunk case
  exit 2   error of the harness itself (no verdict)

Because a case is plain data, a replay file is replayed without Hypothesis (``--replay``).
"""

import argparse
import ast
import importlib
import json
import logging
import multiprocessing
import os
import signal
import sys
import time
import traceback
from collections import Counter
from concurrent.futures import ProcessPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parents[1]
REPO = Path(os.environ.get('PATRO_REPO', '/repo'))
EVIDENCE = VERIF / 'evidence'
REPLAYS = VERIF / 'replays'
KNOWN_FINDINGS = VERIF / 'known-findings.txt'

CASE_TIMEOUT = 150   # [s], a case takes milliseconds


class Violation(AssertionError):
    """The code under test broke the property"""


class NonTermination(BaseException):
    """A single case ran for CASE_TIMEOUT seconds"""


def fail(message, *args):
    raise Violation(message.format(*args) if args else message)


def ensure(condition, message, *args):
    if not condition:
        fail(message, *args)


####################################################################################################

class Facet:
    def __init__(self, name, function, strategy, quick, thorough, shards):
        self.name = name
        self.function = function
        self.strategy = strategy
        self.quick = quick
        self.thorough = thorough
        self.shards = shards


class Check:
    """Collects the facets and known findings of one property"""

    def __init__(self, property_id, rule, assumptions=()):
        self.property_id = property_id
        self.rule = rule
        self.assumptions = list(assumptions)
        self.facets = {}
        self.findings = {}

    def facet(self, strategy, quick=1000, thorough=None, shards=1):
        """Register a facet; *quick* and *thorough* are numbers of generated cases (per shard)"""
        if thorough is None:
            thorough = 15 * quick

        def wrapper(function):
            name = function.__name__
            assert name not in self.facets
            self.facets[name] = Facet(name, function, strategy, quick, thorough, shards)
            return function
        return wrapper

    def finding(self, key):
        """Register the reproduction of a known finding: the function raises while the defect is there"""
        def wrapper(function):
            assert key not in self.findings
            self.findings[key] = function
            return function
        return wrapper


####################################################################################################

def open_findings(property_id):
    """Return the open entries {key: description} of the known-findings file for this property"""
    findings = {}
    if KNOWN_FINDINGS.exists():
        for line in KNOWN_FINDINGS.read_text().splitlines():
            if line.startswith('open: '):
                fields = line[len('open: '):].split(' ', 2)
                assert fields[0].startswith('property=') and fields[1].startswith('key=')
                if fields[0] == 'property=' + property_id:
                    findings[fields[1][len('key='):]] = fields[2]
    return findings


####################################################################################################

def _on_alarm(signum, frame):
    raise NonTermination('case did not terminate within {} s'.format(CASE_TIMEOUT))


def _frames_in_repo(tb):
    return any(str(frame.filename).startswith(str(REPO) + os.sep) for frame in traceback.extract_tb(tb))


class ShardState:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = Counter()
        self.samples = []
        self.failing = None
        self.error = None


def run_shard(args):
    """Run one shard of one facet in a worker process"""
    logging.disable(logging.CRITICAL)   # the code under test logs a lot
    property_id, facet_name, shard, seed, tier = args
    try:
        return _run_shard(property_id, facet_name, shard, seed, tier)
    except BaseException:
        return dict(facet=facet_name, harness_error=traceback.format_exc(),
                    evaluations=0, nontrivial=[], labels={}, samples=[], failing=None)


def _run_shard(property_id, facet_name, shard, seed, tier):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis.internal.conjecture import engine

    # several shards can fail, the whole check must answer in time
    engine.MAX_SHRINKING_SECONDS = 30 if tier == 'quick' else 120

    check = load_check(property_id)
    facet = check.facets[facet_name]
    number_of_cases = facet.quick if tier == 'quick' else facet.thorough
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    number_of_cases = max(1, int(number_of_cases * scale))

    state = ShardState()

    def run_case(case):
        state.evaluations += 1
        text = repr(case)
        signal.alarm(CASE_TIMEOUT)
        try:
            label = facet.function(case)
        except NonTermination as exception:
            state.failing = text
            state.error = 'NonTermination: ' + str(exception)
            raise Violation(str(exception))
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except hypothesis.errors.StopTest:
            raise
        except Exception as exception:
            # Last one seen by Hypothesis is the minimal one (it replays the shrunk case at the end)
            state.failing = text
            state.error = ''.join(traceback.format_exception(exception, limit=-8))
            raise
        finally:
            signal.alarm(0)
        if label:
            h = hash(text)
            if h not in state.nontrivial:
                state.nontrivial.add(h)
                for x in (label if isinstance(label, (list, tuple, set)) else (label,)):
                    state.labels[str(x)] += 1
                if len(state.samples) < 3 and state.evaluations > 3:
                    state.samples.append(text if len(text) < 600 else text[:600] + '...')

    test = hypothesis.given(facet.strategy)(run_case)
    test = settings(
        max_examples=number_of_cases,
        database=None,
        deadline=None,
        derandomize=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )(test)
    test = hypothesis.seed('{}/{}/{}/{}'.format(property_id, facet_name, seed, shard))(test)

    signal.signal(signal.SIGALRM, _on_alarm)

    harness_error = None
    try:
        test()
    except hypothesis.errors.Flaky as exception:
        # The failure depends on something else than the case
        if state.failing is None:
            harness_error = traceback.format_exc()
    except hypothesis.errors.HypothesisException:
        if state.failing is None:
            harness_error = traceback.format_exc()
    except Exception:
        if state.failing is None:
            harness_error = traceback.format_exc()

    return dict(
        facet=facet_name,
        evaluations=state.evaluations,
        nontrivial=list(state.nontrivial),
        labels=dict(state.labels),
        samples=state.samples,
        failing=state.failing,
        error=state.error,
        harness_error=harness_error,
    )


####################################################################################################

class ImportViolation(Exception):
    pass


_checks = {}

def load_check(property_id):
    if property_id not in _checks:
        if str(REPO) not in sys.path:
            sys.path.insert(0, str(REPO))
        if str(VERIF) not in sys.path:
            sys.path.insert(0, str(VERIF))
        _checks[property_id] = importlib.import_module('checks.' + property_id).check
    return _checks[property_id]


def write_replay(property_id, facet, case, error, seed, tier):
    REPLAYS.mkdir(exist_ok=True)
    path = REPLAYS / '{}-{}.json'.format(property_id, facet)
    with open(path, 'w') as fh:
        json.dump(dict(
            property=property_id, facet=facet, case=case, error=error, seed=seed, tier=tier,
            how_to_replay='{} {}/run.py {} --replay {}'.format(sys.executable, VERIF, property_id, path),
        ), fh, indent=1)
        fh.write('\n')
    return path


def replay(property_id, path):
    """Replay a saved case without Hypothesis"""
    with open(path) as fh:
        data = json.load(fh)
    if data['facet'] == 'import':
        load_check(property_id)
        print('held: import')
        return 0
    check = load_check(property_id)
    facet = check.facets[data['facet']]
    case = ast.literal_eval(data['case'])
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        label = facet.function(case)
    except (Exception, NonTermination):
        traceback.print_exc()
        print('VIOLATION property={} replay={}'.format(property_id, path))
        return 1
    finally:
        signal.alarm(0)
    print('held: {} {} label={}'.format(property_id, data['facet'], label))
    return 0


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', choices=('quick', 'thorough'), default='quick')
    parser.add_argument('--replay')
    parser.add_argument('--facet', action='append')
    parser.add_argument('--jobs', type=int, default=0)
    parser.add_argument('--verbose', '-v', action='store_true')
    args = parser.parse_args()

    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    property_id = args.property
    t0 = time.time()

    # Load the check: an import error raised by the code under test is a violation
    try:
        check = load_check(property_id) if not args.replay else None
    except BaseException as exception:
        if isinstance(exception, SyntaxError) and str(exception.filename).startswith(str(REPO)):
            in_repo = True
        else:
            frames = [f for f in traceback.extract_tb(exception.__traceback__) if not f.filename.startswith('<frozen')]
            in_repo = bool(frames) and frames[-1].filename.startswith(str(REPO) + os.sep)
            if isinstance(exception, ImportError) and str(exception.name or '').split('.')[0] == 'Patro':
                in_repo = True
        traceback.print_exc()
        if in_repo:
            path = write_replay(property_id, 'import', 'None', traceback.format_exc(), seed, args.tier)
            write_evidence(property_id, args.tier, seed, time.time() - t0,
                           dict(evaluations=1, distinct_nontrivial=0,
                                rule='import of the code under test failed', samples=[str(exception)]), [], 1)
            print('VIOLATION property={} replay={}'.format(property_id, path))
            return 1
        return 2

    if args.replay:
        return replay(property_id, args.replay)

    jobs = []
    for facet in check.facets.values():
        if args.facet and facet.name not in args.facet:
            continue
        shards = facet.shards if args.tier == 'quick' else max(facet.shards, 4)
        for shard in range(shards):
            jobs.append((property_id, facet.name, shard, seed, args.tier))

    number_of_workers = args.jobs or int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    number_of_workers = min(number_of_workers, len(jobs))
    if number_of_workers == 1:
        results = [run_shard(job) for job in jobs]
    else:
        context = multiprocessing.get_context('fork')
        with ProcessPoolExecutor(number_of_workers, mp_context=context) as pool:
            # a dead worker (crash, out of memory) raises BrokenProcessPool: harness error, no verdict
            results = list(pool.map(run_shard, jobs, chunksize=1))

    # Known findings
    violations = []
    exit_error = False
    listed = open_findings(property_id)
    reproduced = []
    for key, description in listed.items():
        if args.facet:
            break
        function = check.findings.get(key)
        if function is None:
            print('ERROR: no reproduction for known finding {}'.format(key), file=sys.stderr)
            exit_error = True
            continue
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.alarm(CASE_TIMEOUT)
        try:
            function()
        except (Exception, NonTermination):
            print('KNOWN-FINDING: property={} {}'.format(property_id, description))
            reproduced.append(key)
        finally:
            signal.alarm(0)

    # Merge
    evaluations = 0
    distinct = 0
    per_facet = {}
    samples = []
    for result in results:
        facet_data = per_facet.setdefault(result['facet'], dict(evaluations=0, nontrivial=set(), labels=Counter()))
        facet_data['evaluations'] += result['evaluations']
        facet_data['nontrivial'].update(result['nontrivial'])
        facet_data['labels'].update(result['labels'])
        for sample in result['samples'][:2]:
            if sum(1 for s in samples if s['facet'] == result['facet']) < 3:
                samples.append(dict(facet=result['facet'], case=sample))
        if result['harness_error']:
            print('HARNESS ERROR in facet {}\n{}'.format(result['facet'], result['harness_error']), file=sys.stderr)
            exit_error = True
        if result['failing'] is not None:
            violations.append(result)
    for data in per_facet.values():
        evaluations += data['evaluations']
        data['distinct_nontrivial'] = len(data.pop('nontrivial'))
        distinct += data['distinct_nontrivial']
        data['labels'] = dict(data['labels'].most_common(40))

    coverage = dict(
        evaluations=evaluations,
        distinct_nontrivial=distinct,
        rule=check.rule,
        samples=samples,
        per_facet=per_facet,
        known_findings_reproduced=reproduced,
    )
    seen = set()
    unique = []
    for result in violations:
        if result['facet'] not in seen:
            seen.add(result['facet'])
            unique.append(result)
    if not args.facet:
        write_evidence(property_id, args.tier, seed, time.time() - t0, coverage, check.assumptions, len(unique))

    for result in unique:
        path = write_replay(property_id, result['facet'], result['failing'], result['error'], seed, args.tier)
        print('--- {} / {}'.format(property_id, result['facet']))
        print('case: ' + result['failing'][:2000])
        print(result['error'])
        print('VIOLATION property={} replay={}'.format(property_id, path))

    print('{} {} seed={}: {} cases, {} distinct non-trivial, {} violation(s), {:.1f} s'.format(
        property_id, args.tier, seed, evaluations, distinct, len(unique), time.time() - t0))
    if args.verbose:
        for name, data in per_facet.items():
            print('  {:40} {:7} cases {:7} nontrivial  {}'.format(
                name, data['evaluations'], data['distinct_nontrivial'], data['labels']))

    if unique:
        return 1
    if exit_error:
        return 2
    return 0


def write_evidence(property_id, tier, seed, wall, coverage, assumptions, violations):
    EVIDENCE.mkdir(exist_ok=True)
    with open(EVIDENCE / (property_id + '.json'), 'w') as fh:
        json.dump(dict(
            property=property_id, tier=tier, seed=seed, level='exploration', coverage=coverage,
            assumptions=assumptions, wall_s=round(wall, 3), violations=violations,
        ), fh, indent=1)
        fh.write('\n')
