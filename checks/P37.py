"""P37 — Counters, identifiers and singletons under concurrency"""

import importlib
import sys

from hypothesis import strategies as st

import Patro.Common
import Patro.Common.AtomicCounter
import Patro.Common.Object
import Patro.Common.Singleton

from pbt import sched
from pbt.harness import REPO, Check, ensure, fail

check = Check(
    'P37',
    rule='Hypothesis generates the operations of one to four threads and a schedule: the threads run one at a time and are switched at chosen bytecode instructions of the '
         'code under test.  The oracle is linearizability with respect to a sequential counter (every result is explained by an order of atomic operations compatible with '
         'real time), distinct identifiers, and a count of constructions.  A case is non-trivial when the schedule switches threads at least twice.',
    assumptions=['increments are positive', 'at most four threads of four operations', 'switches happen between bytecode instructions', 'the `singleton` decorators are only '
                 'used by one thread'],
)

MODULES = ['Patro.Common.AtomicCounter', 'Patro.Common.Object', 'Patro.Common.Singleton']
PREFIXES = [REPO / 'Patro', __file__]


def fresh(scheduler):
    """Modules whose locks are known by the scheduler"""
    saved = {name: sys.modules.pop(name) for name in MODULES}
    attributes = {name: getattr(Patro.Common, name.rsplit('.', 1)[1], None) for name in MODULES}
    try:
        with scheduler.patch():
            return [importlib.import_module(name) for name in MODULES]
    finally:
        sys.modules.update(saved)
        for name, value in attributes.items():
            if value is not None:
                setattr(Patro.Common, name.rsplit('.', 1)[1], value)


schedules = st.integers(0, 24).flatmap(lambda n: st.lists(st.tuples(st.integers(0, 11), st.one_of(st.integers(0, 8), st.integers(0, 30))), min_size=n, max_size=n))
counter_operation = st.one_of(
    st.just(('increment',)),
    st.just(('increment',)),
    st.tuples(st.just('increment'), st.integers(1, 5)),
    st.tuples(st.just('set'), st.integers(-3, 25)),
    st.just(('int',)),
)


def threads_of(operation):
    return st.integers(1, 4).flatmap(lambda n: st.lists(st.lists(operation, min_size=1, max_size=4), min_size=n, max_size=n))


def counter_step(state, operation):
    if operation[0] == 'increment':
        state += operation[1] if len(operation) > 1 else 1
        return state, state
    if operation[0] == 'set':
        if operation[1] <= state:
            return 'rejected', state
        return 'set', operation[1]
    return state, state


def label(scheduler, threads):
    if scheduler.switches < 2 or len(threads) < 2:
        return None
    return 'contended' if scheduler.contended else 'interleaved'


def run(scheduler, threads, schedule, perform):
    history = []

    def body(operations):
        def function():
            for operation in operations:
                start = scheduler.tick()
                result = perform(tuple(operation))
                history.append((start, scheduler.tick(), tuple(operation), result))
        return function

    try:
        scheduler.run([body(operations) for operations in threads], schedule)
    except sched.Deadlock as error:
        fail('deadlock of {} with the schedule {}: {}', threads, schedule, error)
    return history


@check.facet(st.tuples(st.integers(-3, 5), threads_of(counter_operation), schedules), quick=250, shards=6)
def counters(case):
    initial, threads, schedule = case
    scheduler = sched.Scheduler([REPO / 'Patro'])
    module = fresh(scheduler)[0]
    with scheduler.patch():
        counter = module.AtomicCounter(initial)

    def perform(operation):
        if operation[0] == 'increment':
            return counter.increment(*operation[1:])
        if operation[0] == 'set':
            try:
                counter.set(operation[1])
            except ValueError:
                return 'rejected'
            return 'set'
        return int(counter)

    history = run(scheduler, threads, schedule, perform)
    end = scheduler.tick()
    history.append((end, end + 1, ('int',), int(counter)))
    ensure(sched.linearizable(history, counter_step, initial), 'the results {} from {} are not those of atomic operations', [h[2:] for h in history], initial)
    results = [h[3] for h in history if h[2][0] == 'increment']
    ensure(len(results) == len(set(results)), 'the same value was given twice: {}', results)
    return label(scheduler, threads)


object_operation = st.one_of(st.just(('new',)), st.just(('new',)), st.tuples(st.just('new'), st.integers(0, 20)))


def object_step(state, operation):
    if len(operation) == 1:
        return state + 1, state + 1
    if operation[1] <= state:
        return 'rejected', state
    return operation[1], operation[1]


@check.facet(st.tuples(threads_of(object_operation), st.integers(0, 15), schedules), quick=200, shards=6)
def identifiers(case):
    threads, classes, schedule = case
    scheduler = sched.Scheduler([REPO / 'Patro'])
    module = fresh(scheduler)[1]
    # sub-classes share the counter
    base = type('Base', (module.ObjectGlobalIdMixin,), {})
    pool = [base, type('A', (base,), {}), type('B', (base,), {}), type('C', (module.ObjectGlobalIdMixin,), {})]
    objects = []

    def perform(operation):
        cls = pool[(len(objects) + classes) % 4]
        try:
            obj = cls(*operation[1:])
        except ValueError:
            return 'rejected'
        objects.append(obj)
        return obj.id

    history = run(scheduler, threads, schedule, perform)
    ensure(sched.linearizable(history, object_step, -1), 'the identifiers {} are not those of atomic operations', [h[2:] for h in history])
    ids = [obj.id for obj in objects]
    ensure(len(ids) == len(set(ids)), 'the same identifier was given twice: {}', ids)
    ensure(all(int(obj) == obj.id for obj in objects), 'integer value of the objects')
    ensure(sorted(ids) == sorted(h[3] for h in history if h[3] != 'rejected'), 'an identifier was changed')
    last = base()
    ensure(last.id == max(ids, default=-1) + 1, 'the identifier which follows {} is {}', ids, last.id)
    return label(scheduler, threads)


@check.facet(st.tuples(st.integers(1, 4).flatmap(lambda n: st.lists(st.lists(st.integers(0, 2), min_size=1, max_size=3), min_size=n, max_size=n)), st.integers(0, 2), schedules), quick=200, shards=6)
def singletons(case):
    threads, failures, schedule = case
    scheduler = sched.Scheduler(PREFIXES)
    module = fresh(scheduler)[2]
    built = {0: [], 1: [], 2: []}
    attempts = {0: 0, 1: 0, 2: 0}
    with scheduler.patch():
        class First(metaclass=module.SingletonMetaClass):
            index = 0

            def __init__(self, value, key=None):
                attempts[self.index] += 1
                if attempts[self.index] <= failures:
                    raise KeyError('constructor')
                self.value = value
                self.key = key
                built[self.index].append(self)

        class Second(First):
            index = 1

        class Third(metaclass=module.SingletonMetaClass):
            index = 2
            __init__ = First.__init__
    pool = [First, Second, Third]
    instances = {0: [], 1: [], 2: []}

    def perform(operation):
        index = operation[0]
        try:
            instances[index].append(pool[index](len(instances[index]), key=index))
        except KeyError:
            return 'failed'
        return 'built'

    history = run(scheduler, [[(i,) for i in operations] for operations in threads], schedule, perform)
    for index, cls in enumerate(pool):
        results = [h[3] for h in history if h[2] == (index,)]
        ensure(results.count('failed') == min(failures, len(results)), 'calls of a constructor which fails {} times: {}', failures, results)
        ensure(len(built[index]) == (1 if 'built' in results else 0), 'the singleton was built {} times', len(built[index]))
        ensure(all(x is built[index][0] for x in instances[index]), 'a singleton has several instances')
        ensure(all(type(x) is cls and x.key == index for x in instances[index]), 'a singleton is of another class')
    for cls in pool:
        # a class which is defined later has its own instance
        child = type(cls)('Child', (cls,), {'index': 3})
        attempts[3], built[3] = failures, []
        ensure(type(child(1)) is child and child(2) is child(3) and len(built[3]) == 1, 'instance of a sub-class')
    return label(scheduler, threads)


@check.facet(st.tuples(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 9)), min_size=1, max_size=10), st.booleans()), quick=400)
def decorators(case):
    """Other singletons, in one thread"""
    calls, with_arguments = case
    module = Patro.Common.Singleton
    built = []

    class A:
        def __init__(self, *args):
            self.args = args
            built.append(self)

    class B(A):
        pass

    class Shared(module.monostate):
        def __init__(self, *args):
            if args:
                self.args = args

    Shared().__dict__.clear()
    pool = [module.singleton(A), module.singleton_func(B), module.singleton_func(A), Shared]
    first, shared = {}, None
    for index, value in calls:
        args = (value,) if with_arguments else ()
        obj = pool[index](*args)
        if index == 3:
            shared = args if args else shared
            ensure(type(obj) is Shared and getattr(obj, 'args', None) == shared, 'state of a monostate')
            first.setdefault(index, obj)
            ensure(getattr(first[index], 'args', None) == shared, 'the state is shared')
        else:
            ensure(obj.args == first.setdefault(index, (obj, args))[1], 'arguments of a singleton')
            ensure(obj is first[index][0], 'a singleton has several instances')
    ensure(len(built) == len({i for i, _ in calls if i < 3}), 'instances are built once')
    return None if len(calls) < 2 else 'decorator'
