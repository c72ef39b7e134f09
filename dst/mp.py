"""Simulated multiprocessing: processes, queues, managers, locks and pools.

Installed over the names in the real `multiprocessing` package before the
package under test is imported.  A simulated process is a real fork (its memory
is separate, as in production); what is simulated is every point where it
touches another process, and who runs.
"""
import os
import pickle
import sys
import traceback

from . import kernel, native
from . import world as world_mod

CPUS = 2


def cpu_count():
    return CPUS


class _Handle(object):
    kind = None

    def __init__(self, initial=None, number=None):
        if number is None:
            if not kernel.connected():
                # no scheduler: the object exists, but using it is an error
                number = -1
            else:
                number = kernel.call("new", self.kind, initial)
        self.number = number

    def __reduce__(self):
        return (type(self), (None, self.number))


class SimQueue(_Handle):
    kind = "queue"

    def __init__(self, maxsize=0, number=None, **_):
        _Handle.__init__(self, None, number)

    def put(self, item, block=True, timeout=None):
        kernel.call("q_put", self.number, pickle.dumps(item))

    put_nowait = put

    def get(self, block=True, timeout=None):
        return pickle.loads(kernel.call("q_get", self.number, block and timeout is None))

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        return kernel.call("q_size", self.number)

    def empty(self):
        return self.qsize() == 0

    def task_done(self):
        kernel.call("q_done", self.number)

    def join(self):
        kernel.call("q_join", self.number)

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class SimLock(_Handle):
    kind = "lock"

    def acquire(self, block=True, timeout=None):
        return kernel.call("l_acquire", self.number, bool(block) and timeout is None)

    def release(self):
        kernel.call("l_release", self.number)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_):
        self.release()


class SimRLock(SimLock):
    kind = "rlock"


class SimEvent(_Handle):
    kind = "event"

    def set(self):
        kernel.call("e_set", self.number, True)

    def clear(self):
        kernel.call("e_set", self.number, False)

    def is_set(self):
        return kernel.call("e_get", self.number)

    def wait(self, timeout=None):
        if timeout is not None:
            return self.is_set()
        return kernel.call("e_wait", self.number)


def _proxy(names):
    def make(name):
        def method(self, *args, **kwargs):
            return kernel.call("obj", self.number, name, args, kwargs)
        method.__name__ = name
        return method
    return {name: make(name) for name in names}


class _Iter(object):
    def __iter__(self):
        return iter(kernel.call("obj", self.number, "__iter__", (), {}))


SimDict = type("SimDict", (_Iter, _Handle,), dict(_proxy((
    "__setitem__", "__getitem__", "__delitem__", "__contains__", "__len__", "get",
    "items", "keys", "values", "pop", "setdefault", "update", "copy", "clear",
    "popitem")), kind="dict", __module__=__name__))
SimList = type("SimList", (_Iter, _Handle,), dict(_proxy((
    "__setitem__", "__getitem__", "__delitem__", "__contains__", "__len__", "append",
    "extend", "insert", "pop", "remove", "count", "index", "sort", "reverse", "copy")),
    kind="list", __module__=__name__))


class SimManager(object):
    """Stand-in for multiprocessing.Manager()."""

    def start(self):
        return self

    def dict(self, *args, **kwargs):
        return SimDict(dict(*args, **kwargs))

    def list(self, *args):
        return SimList(list(*args))

    def Lock(self):
        return SimLock()

    def RLock(self):
        return SimRLock()

    def Queue(self, *_):
        return SimQueue()

    JoinableQueue = Queue

    def Event(self):
        return SimEvent()

    def shutdown(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass


_current = None


class SimProcess(object):
    """Stand-in for multiprocessing.Process (fork start method)."""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target = target
        self._args = tuple(args)
        self._kwargs = dict(kwargs or {})
        self.name = name or "SimProcess"
        self.daemon = bool(daemon)
        self._number = None
        self.exitcode = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        global _current
        if not kernel.connected():
            raise world_mod.HarnessError("process started outside a scheduled world")
        sys.stdout.flush()
        sys.stderr.flush()
        number, fd = kernel.client_fork(self.name, self.daemon)
        pid = os.fork()
        if pid:
            os.close(fd)
            self._number = number
            self._pid = pid
            world_mod.CURRENT.children.append(self)
            return
        code = 1
        try:
            ctx = kernel.adopt(fd, self.name, number)
            _current = self
            try:
                self.run()
                code = 0
            except SystemExit as ex:
                code = ex.code if isinstance(ex.code, int) else 1 if ex.code else 0
            except BaseException:
                traceback.print_exc()
            at_exit(ctx)
            sys.stdout.flush()
            sys.stderr.flush()
            kernel.client_exit(ctx, code)
        finally:
            os._exit(code)

    def join(self, timeout=None):
        if self._number is None:
            raise AssertionError("can only join a started process")
        if timeout is not None and kernel.call("alive", self._number):
            return
        self.exitcode = kernel.call("join", self._number)
        if self._pid:
            try:
                os.waitpid(self._pid, 0)
            except ChildProcessError:
                pass
            self._pid = None

    def is_alive(self):
        return self._number is not None and kernel.call("alive", self._number)

    def terminate(self):
        kernel.call("terminate", self._number)

    kill = terminate

    def close(self):
        pass

    @property
    def pid(self):
        return self._number

    ident = pid


def current_process():
    return _current or SimProcess(name="MainProcess")


class SimAsyncResult(object):
    def __init__(self, queue):
        self._queue = queue
        self._value = None

    def get(self, timeout=None):
        if self._value is None:
            self._value = pickle.loads(self._queue.get())
        if self._value[0]:
            return self._value[1]
        raise self._value[1]

    def wait(self, timeout=None):
        if self._value is None:
            self._value = pickle.loads(self._queue.get())

    def ready(self):
        return self._value is not None or not self._queue.empty()


class SimPool(object):
    """Stand-in for multiprocessing.Pool."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        self.tasks = SimQueue()
        self.workers = []
        for _ in range(processes or cpu_count()):
            worker = SimProcess(target=self._work, args=(initializer, initargs), daemon=True)
            worker.start()
            self.workers.append(worker)

    def _work(self, initializer, initargs):
        if initializer:
            initializer(*initargs)
        while True:
            task = self.tasks.get()
            if task is None:
                return
            func, args, kwargs, reply = task
            try:
                value = (True, func(*args, **kwargs))
            except Exception as exc:
                value = (False, exc)
            try:
                data = pickle.dumps(value)
            except Exception as exc:
                data = pickle.dumps((False, RuntimeError(repr(exc))))
            reply.put(data)

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        reply = SimQueue()
        self.tasks.put((func, tuple(args), dict(kwds or {}), reply))
        return SimAsyncResult(reply)

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def map(self, func, iterable):
        results = [self.apply_async(func, (x,)) for x in iterable]
        return [r.get() for r in results]

    def close(self):
        for _ in self.workers:
            self.tasks.put(None)

    def join(self):
        for worker in self.workers:
            worker.join()

    def terminate(self):
        for worker in self.workers:
            worker.terminate()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.terminate()


def at_exit(ctx):
    """multiprocessing's exit handler: end daemons, then join the others."""
    for child in ctx.children:
        if child.daemon and child._number is not None:
            child.terminate()
    for child in ctx.children:
        if not child.daemon and child._number is not None:
            child.join()


def install():
    import multiprocessing
    multiprocessing.Process = SimProcess
    multiprocessing.Queue = multiprocessing.JoinableQueue = multiprocessing.SimpleQueue = SimQueue
    multiprocessing.Lock = SimLock
    multiprocessing.RLock = SimRLock
    multiprocessing.Event = SimEvent
    multiprocessing.Manager = SimManager
    multiprocessing.Pool = SimPool
    multiprocessing.cpu_count = cpu_count
    multiprocessing.current_process = current_process
