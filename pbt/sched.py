"""Deterministic scheduler: runs threads one at a time and switches between them at chosen bytecode instructions

The instrumented threads trace the frames of the code under test by opcode.  A *schedule* is a list of ``(thread, burst)``: the thread runs for
``burst`` instructions, then the next entry is used; when the list is exhausted the remaining threads run to completion, in turn.  ``threading.Lock`` and
``threading.RLock`` are replaced by cooperative locks in a :meth:`Scheduler.patch` context, so that a thread which waits for a lock gives way.  A lock
created otherwise is handled by a timeout.
"""

import contextlib
import itertools
import sys
import threading

_Lock = threading.Lock
_RLock = threading.RLock
_Thread = threading.Thread
_Semaphore = threading.Semaphore


class Deadlock(Exception):
    """All the threads wait for each other"""


class CooperativeLock:

    def __init__(self, scheduler, reentrant):
        self._scheduler = scheduler
        self._reentrant = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self._owner is not None and not (self._reentrant and self._owner == me):
            if not blocking or timeout >= 0:
                return False
            self._scheduler.wait(self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if not self._count:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def free_for(self, ident):
        return self._owner is None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()


class _Task:

    def __init__(self, scheduler, index, function):
        self.scheduler = scheduler
        self.index = index
        self.function = function
        self.go = _Semaphore(0)
        self.done = False
        self.waiting_for = None
        self.error = None
        self.burst = 0
        self.thread = _Thread(target=self.run, daemon=True)

    def run(self):
        self.go.acquire()
        sys.settrace(self.trace)
        try:
            self.function()
        except BaseException as error:
            self.error = error
        finally:
            sys.settrace(None)
            self.done = True
            self.scheduler.back.release()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.scheduler.prefixes):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self.step

    def step(self, frame, event, arg):
        if event == 'opcode':
            if self.burst <= 0:
                self.give_way()
            self.burst -= 1
        return self.step

    def give_way(self):
        self.scheduler.back.release()
        self.go.acquire()


class Scheduler:

    def __init__(self, prefixes):
        self.prefixes = tuple(str(p) for p in prefixes)
        self.back = _Semaphore(0)
        self.tasks = []
        self.switches = 0
        self.contended = 0
        self._clock = itertools.count(1)

    def tick(self):
        """A logical time; the threads run one at a time"""
        return next(self._clock)

    @contextlib.contextmanager
    def patch(self):
        threading.Lock = lambda: CooperativeLock(self, False)
        threading.RLock = lambda: CooperativeLock(self, True)
        try:
            yield
        finally:
            threading.Lock, threading.RLock = _Lock, _RLock

    def wait(self, lock):
        ident = threading.get_ident()
        for task in self.tasks:
            if task.thread.ident == ident:
                task.waiting_for = lock
                self.contended += 1
                task.give_way()
                return
        raise Deadlock('the main thread waits for a lock')

    def run(self, functions, schedule):
        self.tasks = [_Task(self, i, f) for i, f in enumerate(functions)]
        for task in self.tasks:
            task.thread.start()
        schedule = list(schedule)
        position = 0
        last = None
        stuck = set()
        while True:
            pending = [t for t in self.tasks if not t.done]
            if not pending:
                break
            for task in pending:
                if task.waiting_for is not None and task.waiting_for.free_for(task.thread.ident):
                    task.waiting_for = None
            ready = [t for t in pending if t.waiting_for is None and t.index not in stuck]
            if not ready:
                if stuck:
                    # waits for a lock which is not cooperative
                    if not self.back.acquire(timeout=5):
                        raise Deadlock('all the threads wait')
                    stuck.clear()
                    continue
                raise Deadlock('all the threads wait for a lock')
            if position < len(schedule):
                index, burst = schedule[position]
                position += 1
                task = ready[index % len(ready)]
            else:
                task, burst = ready[0], 10**9
            if last is not None and task is not last:
                self.switches += 1
            last = task
            task.burst = burst
            task.go.release()
            if not self.back.acquire(timeout=.5):
                stuck.add(task.index)
        for task in self.tasks:
            task.thread.join()
            if task.error is not None:
                raise task.error


def linearizable(history, step, state):
    """Whether the *history* of ``(start, stop, operation, result)`` can be explained by atomic operations

    ``step(state, operation)`` returns ``(result, new state)``.
    """
    seen = set()

    def search(todo, state):
        if not todo:
            return True
        if (todo, state) in seen:
            return False
        seen.add((todo, state))
        first_stop = min(history[i][1] for i in todo)
        for i in todo:
            start, stop, operation, result = history[i]
            if start <= first_stop:
                expected, new_state = step(state, operation)
                if expected == result and search(todo - {i}, new_state):
                    return True
        return False

    return search(frozenset(range(len(history))), state)
