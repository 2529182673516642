# -*- coding: utf-8 -*-
"""Deterministic scheduling of threads in the code under test.

Only one thread runs at a time.  It may lose its turn at every line it executes in the watched files, when it has
to wait for a lock, and between its operations.  Locks made by the code under test (threading.Lock and
RLock, replaced before it is imported) are stand-ins known to the scheduler; a thread that waits for
something else is noticed by a time-out."""
import sys, threading, thread
from java.util.concurrent import Semaphore, TimeUnit
from vpgate import Gate


class Stop(BaseException):
    """the run is given up"""


CUR = {}            # thread ident -> Worker
SCHED = [None]      # the scheduler in charge


class Lock(object):
    reentrant = False

    def __init__(self, *args):
        self.owner, self.count = None, 0

    def acquire(self, blocking=1, *args):
        me = thread.get_ident()
        w = CUR.get(me)
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if w is None:
                # the main thread finds the lock still held
                raise Stop("lock never released")
            w.wait_for(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != thread.get_ident()):
            raise RuntimeError("release of a lock that is not held")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()
        return False

    def locked(self):
        return self.owner is not None


class RLock(Lock):
    reentrant = True


def install():
    """make the code imported from now on use the stand-ins; returns a function that undoes this"""
    old = threading.Lock, threading.RLock, thread.allocate_lock
    threading.Lock, threading.RLock, thread.allocate_lock = Lock, RLock, Lock

    def undo():
        threading.Lock, threading.RLock, thread.allocate_lock = old
    return undo


class Worker(object):
    """a thread that serves one run after the other"""

    def __init__(self, watch):
        self.gate = Gate(watch, Stop)
        self.turn = self.gate.turn
        self.job = None
        self.point = self.gate.point
        thread.start_new_thread(self.serve, ())

    def serve(self):
        CUR[thread.get_ident()] = self
        while True:
            self.turn.acquire()
            job, self.job = self.job, None
            if job is None:
                return
            self.gate.install()
            try:
                try:
                    job()
                except Stop:
                    self.stopped = True
                except BaseException:
                    self.error = sys.exc_info()[0].__name__
                except:
                    self.error = "Java:" + sys.exc_info()[0].__name__
            finally:
                Gate.remove()
            self.finished = True
            Gate.main.release()

    def wait_for(self, lock):
        self.blocked = lock
        self.gate.give()
        self.blocked = None

    def begin(self, job):
        self.job = job
        self.gate.quota = self.gate.lines = 0
        self.blocked, self.finished, self.error, self.stopped = None, False, "", False


class Sched(object):
    def __init__(self, n, watch, limit=30000):
        self.watch, self.n, self.limit = watch, n, limit
        self.workers = [Worker(watch) for _ in range(n)]

    def turn(self, w, quota):
        """let worker w run for so many lines; false if it did not come back"""
        w.gate.quota = quota
        w.turn.release()
        if not Gate.main.tryAcquire(3, TimeUnit.SECONDS):
            return False
        return True

    def run(self, jobs, plan):
        """jobs: one callable per thread; plan: (thread, lines) pairs, then everyone to the end.
        returns (hang, error, lines per thread)"""
        Gate.main = Semaphore(0)
        Gate.total, Gate.limit, Gate.stop, Gate.hang = 0, self.limit, False, False
        ws = self.workers[:len(jobs)]
        for w, j in zip(ws, jobs):
            w.begin(j)
        lost = False
        for t, q in plan:
            w = ws[t]
            if w.finished or (w.blocked is not None and w.blocked.owner is not None):
                continue
            if not self.turn(w, q):
                lost = True
                break
        while not lost and not all(w.finished for w in ws):
            ready = [w for w in ws if not w.finished and (w.blocked is None or w.blocked.owner is None)]
            if not ready or Gate.stop:
                Gate.hang = True
                break
            for w in ready:
                if not w.finished and (w.blocked is None or w.blocked.owner is None) and not Gate.stop:
                    if not self.turn(w, 1 << 30):
                        lost = True
                        break
        if lost:
            Gate.hang = True
        if Gate.hang:
            # wake everybody so that the threads give up; then start afresh
            Gate.stop = True
            for w in ws:
                if not w.finished:
                    w.turn.release()
            for w in ws:
                n = 0
                while not w.finished and n < 20:
                    Gate.main.tryAcquire(50, TimeUnit.MILLISECONDS)
                    n += 1
            self.workers = [Worker(self.watch) for _ in range(self.n)]
        errors = sorted(set(w.error for w in ws if w.error))
        return Gate.hang, " ".join(errors), [w.gate.lines for w in ws]
