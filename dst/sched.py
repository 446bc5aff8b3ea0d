"""Real threads of which exactly one runs; the plan of the case decides where another one takes over.

A switch may happen before any line (or byte code instruction) of the code under test."""
import sys
import threading

from . import env
from .simloop import Hang

WAIT = 60.0     # real seconds without any progress: the harness is broken

_real_lock, _real_rlock = threading.Lock, threading.RLock
active = None


def place(frame, event):
    """where a thread is"""
    c = frame.f_code
    return (c.co_filename, c.co_firstlineno, c.co_name, frame.f_lasti if event == "opcode" else frame.f_lineno)


class Recorder:
    """the places a sequential execution comes through -> number of visits"""

    def __init__(self, opcodes):
        self.opcodes = opcodes
        self.places = {}
        self.prefix = env.REPO + "/knx_stack/"

    def __enter__(self):
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(None)

    def _call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            p = place(frame, event)
            self.places[p] = self.places.get(p, 0) + 1
        return self._local


class SimLock:
    """a lock of the code under test: it gives the turn away instead of blocking the process"""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        s = active
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout >= 0:
                return False
            if s is None or not s.blocked(self):
                raise Hang("deadlock: a lock is held for ever")
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    # what threading.Condition asks of its lock
    def _is_owned(self):
        return self.owner == threading.get_ident()

    def _release_save(self):
        count, self.count, self.owner = self.count, 0, None
        return count

    def _acquire_restore(self, count):
        self.acquire()
        self.count = count

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _mine():
    """is it a lock of the code under test, maybe within a Condition, Semaphore, Event or Queue of it?"""
    f = sys._getframe(2)
    while f is not None and f.f_globals.get("__name__") in ("threading", "queue"):
        f = f.f_back
    return f is not None and str(f.f_globals.get("__name__", "")).startswith("knx_stack")


def _lock():
    return SimLock() if _mine() else _real_lock()


def _rlock():
    return SimLock(True) if _mine() else _real_rlock()


def install():
    threading.Lock, threading.RLock, threading._allocate_lock = _lock, _rlock, _lock


class Scheduler:
    def __init__(self, programs, plan, opcodes, max_steps=3000000, spots=None):
        """programs: [callable]; plan: [(step, thread)] in order; spots: {(thread, place): {visit: thread}}"""
        self.programs, self.plan, self.opcodes = programs, list(plan), opcodes
        self.spots = spots or {}
        self.visits = {}
        self.back = []       # (thread, thread to go on with when its call is done)
        self.step = 0
        self.max_steps = max_steps
        self.next = 0
        self.current = 0
        self.sems = [threading.Semaphore(0) for _ in programs]
        self.alive = [True] * len(programs)
        self.waiting = [None] * len(programs)     # lock waited for
        self.finished = threading.Semaphore(0)
        self.switches = 0
        self.overlaps = 0
        self.in_call = [None] * len(programs)
        self.trace = []
        self.error = None
        self.prefix = env.REPO + "/knx_stack/"

    def run(self):
        global active
        active = self
        threads = [threading.Thread(target=self._main, args=(i,), daemon=True) for i in range(len(self.programs))]
        try:
            for t in threads:
                t.start()
            self.sems[0].release()
            for _ in threads:
                if not self.finished.acquire(timeout=WAIT):
                    raise Hang("the threads make no progress")
            for t in threads:
                t.join(WAIT)
        finally:
            active = None
        if self.error is not None:
            raise self.error

    def _main(self, i):
        self.sems[i].acquire()
        sys.settrace(self._call)
        try:
            self.programs[i]()
        except BaseException as e:
            if self.error is None:
                self.error = e
        finally:
            sys.settrace(None)
            self.alive[i] = False
            nxt = self._pick(i)
            if nxt is not None:
                self.current = nxt
                self.sems[nxt].release()
            else:
                for k, a in enumerate(self.alive):
                    if a:        # all that is left waits for a lock nobody will release
                        self.alive[k] = False
                        self.error = self.error or Hang("deadlock of the threads")
                        self.finished.release()
            self.finished.release()

    def _pick(self, i):
        n = len(self.programs)
        for k in range(1, n + 1):
            j = (i + k) % n
            if self.alive[j] and (self.waiting[j] is None or self.waiting[j].owner is None):
                return j
        return None

    def blocked(self, lock):
        i = self.current
        self.waiting[i] = lock
        nxt = self._pick(i)
        if nxt is None or nxt == i:
            self.waiting[i] = None
            return nxt == i
        self._switch(i, nxt)
        self.waiting[i] = None
        return True

    def call_done(self, j):
        """a thread has finished a call: the one it interrupted goes on"""
        for n, (a, i) in enumerate(self.back):
            if a == j:
                del self.back[n]
                if self.alive[i] and self.waiting[i] is None:
                    self._switch(j, i)
                return

    def _switch(self, i, j):
        self.switches += 1
        if self.in_call[i] is not None and self.in_call[j] is not None:
            self.overlaps += 1
        self.trace.append((self.step, j))
        self.current = j
        self.sems[j].release()
        if not self.sems[i].acquire(timeout=WAIT):
            raise Hang("thread %d never got its turn back" % i)

    def _call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.step += 1
            if self.spots:
                key = (self.current, place(frame, event))
                if key in self.spots:
                    n = self.visits[key] = self.visits.get(key, -1) + 1
                    j = self.spots[key].pop(n, None)
                    i = self.current
                    if j is not None and j % len(self.programs) != i:
                        j %= len(self.programs)
                        if self.alive[j] and self.waiting[j] is None:
                            self.back.append((j, i))
                            self._switch(i, j)
                            return self._local
            if self.next < len(self.plan) and self.step >= self.plan[self.next][0]:
                j = self.plan[self.next][1] % len(self.programs)
                self.next += 1
                i = self.current
                if j != i and self.alive[j] and self.waiting[j] is None:
                    self._switch(i, j)
            elif self.step > self.max_steps:
                raise Hang("more than %d steps" % self.max_steps)
        return self._local
