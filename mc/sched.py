'''A controlled scheduler: runs calls in threads, one at a time, switching only where it is told.

A scheduling point is a line (or an instruction) of the code under test about to be executed; each
line counts at most VISITS times in each thread, so that long loops are cut short.
'''

import os
import sys
import threading

from .common import REPO, Mismatch

PREFIX = os.path.realpath(REPO) + os.sep
VISITS = 2

_real_lock, _real_rlock = threading.Lock, threading.RLock

_ours = {}


def _baton():
    lock = _real_lock()
    lock.acquire()
    return lock


def ours(name):
    result = _ours.get(name)
    if result is None:
        result = _ours[name] = os.path.realpath(name).startswith(PREFIX)
    return result


class Scheduler:
    '''One execution.  plan is a list of (thread, points): run the thread until it is about to pass
    that many scheduling points (None: to its end).  Afterwards the others run to their ends.'''

    current = None

    def __init__(self, calls, plan):
        self.calls = calls
        self.plan = list(plan)
        self.seen = [{} for _ in calls]
        self.sems = [_baton() for _ in calls]
        self.done = _baton()
        self.finished = [False] * len(calls)
        self.results = [None] * len(calls)
        self.points = [0] * len(calls)
        self.preempted = 0
        self.running = None
        self.quota = None
        self.spins = 0
        self.broken = False

    def choose(self):
        '''The next thread to run, with its quota.'''
        while self.plan:
            tid, quota = self.plan.pop(0)
            if not self.finished[tid]:
                return tid, quota
        for tid, fin in enumerate(self.finished):
            if not fin:
                return tid, None
        return None, None

    def switch(self, me, chosen=None):
        tid, quota = chosen or self.choose()
        self.running, self.quota = tid, quota
        if tid is None:
            self.done.release()
        elif tid != me:
            self.sems[tid].release()
            if me is not None and not self.finished[me]:
                self.sems[me].acquire()
                if self.broken:
                    raise SystemExit

    def blocked(self, me):
        '''The running thread cannot go on until another has.'''
        self.spins += 1
        others = [t for t, fin in enumerate(self.finished) if not fin and t != me]
        if not others or self.spins > 10000:
            raise Mismatch('deadlock')
        self.switch(me, (others[self.spins % len(others)], None))

    def point(self, where):
        '''A scheduling point of the running thread.'''
        if self.quota is None:
            return
        tid = self.running
        seen = self.seen[tid]
        n = seen.get(where, 0)
        if n < VISITS:
            seen[where] = n + 1
            self.points[tid] += 1
            self.quota -= 1
            if self.quota <= 0:
                self.preempted += 1
                self.switch(tid)

    def body(self, tid):
        self.sems[tid].acquire()
        if self.broken:
            return
        _local.tid = tid
        try:
            self.results[tid] = ('ok', self.calls[tid]())
        except Exception as e:
            self.results[tid] = ('exc', type(e).__name__, str(e)[:200])
        except SystemExit:
            return
        self.finished[tid] = True
        self.switch(tid)

    def run(self):
        threads = [threading.Thread(target=self.body, args=(t,), daemon=True)
                   for t in range(len(self.calls))]
        for t in threads:
            t.start()
        Scheduler.current = self
        try:
            self.switch(None)
            self.done.acquire()
        except BaseException:       # time out
            self.broken = True
            for sem in self.sems:
                if sem.locked():
                    sem.release()
            raise
        finally:
            Scheduler.current = None
        for t in threads:
            t.join()
        return self.results


_local = threading.local()
_tool = None


def watch(instructions):
    '''Make every line (or every instruction) of the code under test a scheduling point.'''
    global _tool
    mon = sys.monitoring

    def line(code, where):
        if not ours(code.co_filename):
            return mon.DISABLE
        if Scheduler.current is not None:
            Scheduler.current.point((code, where))

    if _tool is None:
        _tool = 4
        mon.use_tool_id(_tool, 'mc')
        mon.register_callback(_tool, mon.events.LINE, line)
        mon.register_callback(_tool, mon.events.INSTRUCTION, line)
    mon.set_events(_tool, mon.events.INSTRUCTION if instructions else mon.events.LINE)


class CoopLock:
    '''A lock of the code under test: a thread that has to wait for it gives way to the others.'''

    def __init__(self, make):
        self.lock = make()

    def acquire(self, blocking=True, timeout=-1):
        sched = Scheduler.current
        tid = getattr(_local, 'tid', None)
        if sched is None or tid is None or not blocking:
            return self.lock.acquire(blocking, timeout)
        while not self.lock.acquire(False):
            if timeout >= 0 and sched.spins > 100:
                return False
            sched.blocked(tid)
        return True

    def release(self):
        self.lock.release()

    def locked(self):
        if self.lock.acquire(False):
            self.lock.release()
            return False
        return True

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_args):
        self.release()


def own_locks():
    '''Give the code under test cooperative locks.'''
    def factory(make):
        def lock():
            if ours(sys._getframe(1).f_code.co_filename):
                return CoopLock(make)
            return make()
        return lock
    threading.Lock = factory(_real_lock)
    threading.RLock = factory(_real_rlock)


# --- Process-wide state of the package ----------------------------------------------------------

class Snapshot:
    '''The state kept by the modules, classes, functions and coins of the package, to be put back
    between executions so that each starts as a fresh process does.'''

    def __init__(self):
        self.spaces = []        # (object, its namespace then)
        self.boxes = []         # (dict, list or set, a copy of it then)
        self.caches = []
        self.cells = []         # (cell of a closure, its content then)
        self.visited = {}       # id: object, kept so that no other has its id
        for name, mod in sorted(sys.modules.items()):
            if name == 'bitcoinx' or name.startswith('bitcoinx.'):
                self.visit(mod)

    def visit(self, obj):
        if id(obj) in self.visited:
            return
        self.visited[id(obj)] = obj
        if isinstance(obj, (dict, list, set, bytearray)):
            self.boxes.append((obj, obj.copy()))
            for x in (obj.values() if isinstance(obj, dict) else obj):
                if not isinstance(x, (int, str, bytes)):
                    self.visit(x)
        elif isinstance(obj, tuple):
            for x in obj:
                self.visit(x)
        elif hasattr(obj, 'cache_clear'):
            self.caches.append(obj)
        elif isinstance(obj, type(sys)):
            if obj.__name__ == 'bitcoinx' or obj.__name__.startswith('bitcoinx.'):
                self.space(obj)
        elif isinstance(obj, type):
            if obj.__module__.startswith('bitcoinx'):
                self.space(obj)
        elif callable(obj) and hasattr(obj, '__code__'):
            if (obj.__module__ or '').startswith('bitcoinx'):
                self.visit(obj.__defaults__ or ())
                self.visit(tuple((obj.__kwdefaults__ or {}).values()))
                for cell in obj.__closure__ or ():
                    self.cell(cell)
                self.space(obj)
        elif isinstance(obj, (classmethod, staticmethod)):
            self.visit(obj.__func__)
        elif type(obj).__module__.startswith('bitcoinx') and hasattr(obj, '__dict__'):
            self.space(obj)

    def cell(self, cell):
        try:
            then = cell.cell_contents
        except ValueError:
            return
        self.cells.append((cell, then))
        self.visit(then)

    def space(self, obj):
        self.spaces.append((obj, dict(vars(obj))))
        for key, x in list(vars(obj).items()):
            if key not in ('__builtins__', '__all__', '__dict__', '__weakref__'):
                self.visit(x)

    SKIP = ('__builtins__', '__dict__', '__weakref__', '__doc__', '__abstractmethods__',
            '_abc_impl', '__annotations__')

    def restore(self):
        for obj, then in self.spaces:
            now = vars(obj)
            if now == then:
                continue
            for key in [k for k in now if k not in then]:
                if key not in self.SKIP and not key.startswith('__'):
                    delattr(obj, key)
            for key, value in then.items():
                if now.get(key, self) is not value and key not in self.SKIP:
                    setattr(obj, key, value)
        for box, then in self.boxes:
            if box != then or isinstance(box, dict) and list(box) != list(then):
                if isinstance(box, (list, bytearray)):
                    box[:] = then
                else:
                    box.clear()
                    box.update(then)
        for cell, then in self.cells:
            if cell.cell_contents is not then:
                cell.cell_contents = then
        for cache in self.caches:
            cache.cache_clear()
