C='Patro/Common/AtomicCounter.py'; O='Patro/Common/Object.py'; S='Patro/Common/Singleton.py'
H='''
import sys, threading, time
def trace_sleep(filename, function, count=1):
    """Threads sleep at each line of a function"""
    def tracer(frame, event, arg):
        if frame.f_code.co_filename.endswith(filename) and frame.f_code.co_name == function:
            time.sleep(.03)
            return tracer
    return tracer
def in_threads(f, n=2, delay=.015):
    threads = [threading.Thread(target=f) for _ in range(n)]
    for t in threads: t.start(); time.sleep(delay)
    for t in threads: t.join()
'''
def bug(id, S, edits, needs, what, demo):
    return dict(id=id, property=id.split('-')[0], edits=[(S, a, b) for a, b in edits], needs=needs, what=what, demo=H+demo)
BUGS=[
 bug('P37-set-check', C, [("        with self._lock:\n            if value <= self._value:\n                raise ValueError\n            self._value = value\n","        if value <= self._value:\n            raise ValueError\n        with self._lock:\n            self._value = value\n")],
   'a counter is set while another thread increments it past that value', 'the counter goes back', """
from Patro.Common.AtomicCounter import AtomicCounter
c = AtomicCounter(4)
class Lock:
    def __init__(self): self.lock = threading.Lock()
    def __enter__(self):
        time.sleep(.1 if threading.current_thread() is not threading.main_thread() else 0)
        self.lock.acquire()
    def __exit__(self, *args): self.lock.release()
c._lock = Lock()
def f():
    try: c.set(6)
    except ValueError: pass
t = threading.Thread(target=f); t.start(); time.sleep(.03)
for i in range(3): c.increment()
t.join(); assert int(c) >= 7
"""),
 bug('P37-object-id', O, [("            self._id = ObjectGlobalIdMixin.__object_counter__.increment()","            ObjectGlobalIdMixin.__object_counter__.increment()\n            self._id = int(ObjectGlobalIdMixin.__object_counter__)")],
   'two threads create objects', 'both objects get the same identifier', """
from Patro.Common.Object import ObjectGlobalIdMixin
ids = []
threading.settrace(trace_sleep('Object.py', '__init__'))
in_threads(lambda: ids.append(ObjectGlobalIdMixin().id), 3, .02)
assert len(set(ids)) == 3, ids
"""),
 bug('P37-id-subclass', O, [("            ObjectGlobalIdMixin.__object_counter__.set(id)\n","            self.__object_counter__.set(id)\n"),("            self._id = ObjectGlobalIdMixin.__object_counter__.increment()","            self._id = self.__object_counter__.increment()\n            type(self).__object_counter__ = type(self.__object_counter__)(self._id)")],
   'objects of two classes', 'classes do not share their counter', """
from Patro.Common.Object import ObjectGlobalIdMixin as M
class A(M): pass
class B(M): pass
ids = [A().id, B().id, A().id, B().id]
assert len(set(ids)) == 4, ids
"""),
 bug('P37-singleton-lock', S, [("        with cls._rlock:\n            if cls._instance is None:\n                cls._instance = type.__call__(cls, *args, **kwargs)\n","        if cls._instance is None:\n            with cls._rlock:\n                cls._instance = type.__call__(cls, *args, **kwargs)\n")],
   'two threads create the singleton at the same time', 'it is built twice', """
from Patro.Common.Singleton import SingletonMetaClass
class A(metaclass=SingletonMetaClass):
    def __init__(self): time.sleep(.1)
objs = []
in_threads(lambda: objs.append(A()))
assert objs[0] is objs[1]
"""),
 bug('P37-singleton-subclass', S, [("        cls._instance = None\n        cls._rlock","        if not hasattr(cls, '_instance') or cls._instance is None:\n            cls._instance = None\n        cls._rlock")],
   'a sub-class defined once its parent was instantiated', 'the sub-class gives the instance of its parent', """
from Patro.Common.Singleton import SingletonMetaClass
class A(metaclass=SingletonMetaClass): pass
a = A()
class B(A): pass
assert type(B()) is B
"""),
 bug('P37-increment', C, [("            self._value += value\n","            self._value += value if self._value >= 0 else 1\n")], 'an increment by more than one of a negative counter', 'it is incremented by one', """
from Patro.Common.AtomicCounter import AtomicCounter
assert AtomicCounter(-1).increment(3) == 2
"""),
]
