"""Deterministic threads inside one simulated process.

Real threads, parked and released one at a time.  A thread can lose the
processor at every executed line of the chosen source files, at every operation
on a lock created after installation, and when it sleeps; a seeded generator
decides who runs next.
"""
import ctypes
import os
import random
import sys
import threading
import traceback
import _thread

from . import native
from . import world as world_mod


class _Rec(object):
    def __init__(self, number, thread):
        self.number = number
        self.thread = thread
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.done = False
        self.waiting = None      # predicate, or None when runnable
        self.timed = False       # waiting with a timeout: may be woken by it
        self.timed_out = False


class ThreadSim(object):

    def __init__(self, seed, files, rate=0.1, max_switches=100000, stop=None):
        self.rng = random.Random(seed)
        self.files = tuple(files)
        self.rate = rate
        self.recs = {}
        self.order = []
        self.trace = []
        self.switches = 0
        self.lines = 0
        self.max_switches = max_switches
        self.deadlock = None
        self._cache = {}
        self.quiet = 0

    # ----------------------------------------------------------- scheduling
    def me(self):
        return self.recs.get(_thread.get_ident())

    def register_main(self):
        rec = _Rec(0, threading.current_thread())
        self.recs[_thread.get_ident()] = rec
        self.order.append(rec)

    def runnable(self):
        ready = []
        for rec in self.order:
            if rec.done:
                continue
            if rec.waiting is None or rec.waiting():
                ready.append(rec)
        return ready

    def switch(self, rec, target):
        if target is rec:
            return
        self.switches += 1
        self.trace.append(target.number)
        target.go.release()
        if not rec.done:
            rec.go.acquire()

    def point(self):
        """A place where the running thread may be preempted."""
        rec = self.me()
        if rec is None or self.quiet:
            return
        self.lines += 1
        self.clock.words[0] += 1000
        if len(self.order) < 2 or self.switches >= self.max_switches:
            return
        if self.rng.random() >= self.rate:
            return
        ready = [r for r in self.runnable() if r is not rec]
        if ready:
            self.switch(rec, ready[self.rng.randrange(len(ready))])

    def block(self, predicate, timed=False):
        """Wait until predicate() holds; False if the timeout came first."""
        rec = self.me()
        if rec is None:
            return True
        rec.timed, rec.timed_out = timed, False
        rec.waiting = predicate
        self.dispatch(rec)
        rec.waiting = None
        return not rec.timed_out

    def dispatch(self, rec):
        ready = self.runnable()
        if not ready:
            timed = [r for r in self.order if not r.done and r.waiting is not None and r.timed]
            if timed:
                target = timed[self.rng.randrange(len(timed))]
                target.timed_out = True
                target.waiting = None
                self.switch(rec, target)
                return
            if all(r.done for r in self.order):
                return
            self.deadlock = [r.number for r in self.order if not r.done]
            sys.__stderr__.write("simulator: all threads blocked %r\n" % (self.deadlock,))
            for other in self.order:
                if not other.done:
                    stack = sys._current_frames().get(getattr(other.thread, "ident", None))
                    if stack is not None:
                        sys.__stderr__.write("".join(traceback.format_stack(stack)[-4:]))
            sys.__stderr__.flush()
            os._exit(99)
        if rec.waiting is None and not rec.done and rec in ready and len(ready) == 1:
            return
        target = ready[self.rng.randrange(len(ready))]
        if target is rec:
            return
        self.switch(rec, target)

    def finish(self):
        """Main thread ends: wait for the other non-daemon threads."""
        others = [r for r in self.order if r.thread is not None and r.number and not r.thread.daemon]
        self.block(lambda: all(r.done for r in others))

    # --------------------------------------------------------------- tracing
    def _wanted(self, code):
        name = code.co_filename
        hit = self._cache.get(name)
        if hit is None:
            hit = self._cache[name] = any(part in name for part in self.files)
        return hit

    def tracer(self, frame, event, arg):
        if not self._wanted(frame.f_code):
            return None
        self.point()
        return self.line_tracer

    def line_tracer(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.line_tracer

    # --------------------------------------------------------------- install
    def install(self):
        sim = self
        world_mod.THREADS = self
        self.register_main()
        self.clock = world_mod.CURRENT.world.clock

        class SimLock(object):
            def __init__(self):
                self._owner = None

            def acquire(self, blocking=True, timeout=-1):
                sim.point()
                if self._owner is not None:
                    if not blocking:
                        return False
                    if not sim.block(lambda: self._owner is None, timed=timeout is not None and timeout >= 0):
                        return False
                self._owner = _thread.get_ident()
                return True

            acquire_lock = acquire

            def release(self):
                if self._owner is None:
                    raise RuntimeError("release unlocked lock")
                self._owner = None
                sim.point()

            release_lock = release

            def locked(self):
                return self._owner is not None

            def _at_fork_reinit(self):
                self._owner = None

            def __enter__(self):
                self.acquire()
                return self

            def __exit__(self, *_):
                self.release()

        class SimRLock(SimLock):
            def __init__(self):
                SimLock.__init__(self)
                self._count = 0

            def acquire(self, blocking=True, timeout=-1):
                if self._owner == _thread.get_ident():
                    self._count += 1
                    return True
                if SimLock.acquire(self, blocking, timeout):
                    self._count = 1
                    return True
                return False

            def release(self):
                if self._owner != _thread.get_ident():
                    raise RuntimeError("cannot release un-acquired lock")
                self._count -= 1
                if not self._count:
                    SimLock.release(self)

            def _is_owned(self):
                return self._owner == _thread.get_ident()

            def _release_save(self):
                state = (self._count, self._owner)
                self._count = 0
                SimLock.release(self)
                return state

            def _acquire_restore(self, state):
                SimLock.acquire(self)
                self._count = state[0]

        def boot(thread, rec):
            ident = _thread.get_ident()
            rec.go.acquire()
            thread._ident = ident
            thread._native_id = rec.number
            threading._active[ident] = thread
            sim.recs[ident] = rec
            sys.settrace(sim.tracer)
            try:
                thread.run()
            except SystemExit:
                pass
            except BaseException:
                threading.excepthook(threading.ExceptHookArgs(
                    list(sys.exc_info()) + [thread]))
            finally:
                sys.settrace(None)
                threading._active.pop(ident, None)
                thread._is_stopped = True
                rec.done = True
                del sim.recs[ident]
                sim.dispatch(rec)

        def start(thread):
            if not thread._initialized:
                raise RuntimeError("thread.__init__() not called")
            if thread._started._flag:
                raise RuntimeError("threads can only be started once")
            rec = _Rec(len(sim.order), thread)
            thread._sim = rec
            sim.order.append(rec)
            thread._started._flag = True
            _thread.start_new_thread(boot, (thread, rec))
            sim.point()

        def join(thread, timeout=None):
            rec = getattr(thread, "_sim", None)
            if rec is None:
                raise RuntimeError("cannot join thread before it is started")
            sim.block(lambda: rec.done, timed=timeout is not None)

        def is_alive(thread):
            rec = getattr(thread, "_sim", None)
            if rec is None:
                return thread is threading.main_thread()
            return not rec.done

        threading.Thread.start = start
        threading.Thread.join = join
        threading.Thread.is_alive = is_alive
        threading.Lock = threading._allocate_lock = SimLock
        threading.RLock = SimRLock
        self.lock_class, self.rlock_class = SimLock, SimRLock

        def on_sleep(nanos):
            clock = world_mod.CURRENT.world.clock
            rec = sim.me()
            clock.mono = clock.mono + max(nanos, 0)
            if rec is None:
                return
            ready = [r for r in sim.runnable() if r is not rec]
            if ready:
                sim.switch(rec, ready[sim.rng.randrange(len(ready))])
        self._cb = ctypes.CFUNCTYPE(None, ctypes.c_int64)(on_sleep)
        native.lib().sim_set_sleep_cb(self._cb)
        sys.settrace(self.tracer)
        threading.settrace(None)
        return self
