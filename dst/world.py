"""A simulated machine: one directory as disk, one clock, and processes.

Every simulated process is a fork of the pristine worker (the package under
test imported, never used), so process-global state dies with the process and
only what reached the directory survives, as on a real machine.
"""
import gc
import io
import os
import pickle
import shutil
import signal
import sys
import threading
import time
import traceback

from . import native

REAL_OPEN = open             # what runs in a process may replace it


class HarnessError(Exception):
    """The simulator itself failed (never a verdict on the code)."""


class Hang(Exception):
    """A simulated process never ended."""


class Result(object):
    """Outcome of one simulated process."""

    def __init__(self, name):
        self.name = name
        self.status = None       # "exit", "crash", "signal", "hang", "deadlock"
        self.code = None
        self.out = ""
        self.err = ""
        self.value = None
        self.exception = None    # (class name, text) of what escaped
        self.ops = []            # logged disk operations

    @property
    def crashed(self):
        return self.status == "crash"

    @property
    def ok(self):
        return self.status == "exit" and self.code == 0

    def fired(self):
        return [op for op in self.ops if op[6]]

    def brief(self):
        return "%s:%s:%s%s" % (self.name, self.status, self.code,
                               ":" + self.exception[0] if self.exception else "")


def parse_ops(text):
    ops = []
    for line in text.split("\n"):
        cols = line.split("\t")
        if len(cols) == 8:
            ops.append((cols[0], int(cols[1]), cols[2], cols[3], cols[4],
                        int(cols[5]), int(cols[6]), int(cols[7])))
    return ops


def default_base():
    for cand in ("/dev/shm", "/tmp"):
        if os.path.isdir(cand) and os.access(cand, os.W_OK):
            return cand
    return "/tmp"


FIXED_ENV = ("PATH", "HOME", "LANG", "USER", "LOGNAME", "TZ", "MPLBACKEND",
             "PYTHONDONTWRITEBYTECODE", "PYTHONHASHSEED", "PYTHONWARNINGS")

#: set in a simulated process: how it was started
CURRENT = None
#: the thread scheduler of a simulated process, when it has one
THREADS = None


class ProcContext(object):
    def __init__(self, world, name, kernel_fd=None):
        self.world = world
        self.name = name
        self.kernel_fd = kernel_fd
        self.children = []       # simulated sub-processes (see mp.py)


def _finish_python(ctx):
    """What interpreter shutdown does and a bare _exit would skip."""
    try:
        if THREADS is not None:
            THREADS.finish()
        else:
            threading._shutdown()
    except BaseException:
        traceback.print_exc()
    try:
        import atexit
        atexit._run_exitfuncs()
    except BaseException:
        traceback.print_exc()
    # multiprocessing registers its handler when it is imported: the handlers
    # of objects that use it run first
    if ctx.children:
        from . import mp
        mp.at_exit(ctx)
    main = sys.modules.get("__main__")
    if main is not None:
        main.__dict__.clear()
    gc.collect()
    # the interpreter drops every object, and files write their buffers
    files = [obj for obj in gc.get_objects() if isinstance(obj, io.IOBase)]
    for cls in (io.TextIOBase, io.BufferedIOBase):
        for obj in files:
            if isinstance(obj, cls):
                try:
                    obj.flush()
                except Exception:
                    pass
    del files
    for stream in (sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__):
        try:
            stream.flush()
        except Exception:
            pass


def child_main(world, name, fn, args, kwargs, faults, read_ops, cwd, seed, paths,
               gatefd=-1, proc=0):
    """Body of a simulated process; never returns."""
    global CURRENT
    code = 70
    lib = native.lib()
    try:
        signal.signal(signal.SIGINT, signal.default_int_handler)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        out = os.open(paths["out"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o644)
        err = os.open(paths["err"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o644)
        null = os.open("/dev/null", os.O_RDONLY)
        os.dup2(null, 0)
        os.dup2(out, 1)
        os.dup2(err, 2)
        for fd in (out, err, null):
            os.close(fd)
        logfd = os.open(paths["log"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o644)
        os.chdir(cwd)
        for key in list(os.environ):
            if key not in FIXED_ENV:
                del os.environ[key]
        os.environ["PWD"] = cwd
        CURRENT = ctx = ProcContext(world, name, gatefd if gatefd >= 0 else None)
        gc.freeze()
        gc.collect()
        import random
        random.seed(seed)
        world.clock.attach()
        lib.sim_on(world.root.encode(), logfd, gatefd, (seed * 2654435761 + 97) & (2 ** 63 - 1), proc)
        if read_ops:
            lib.sim_read_ops(1)
        if gatefd < 0:
            for fault in faults:
                lib.sim_plan(fault["op"], native.ACTIONS[fault["act"]], fault.get("param", 0),
                             fault.get("until", 0), 1 if fault.get("cls") == "R" else 0)
        value, exc = None, None
        try:
            value = fn(*args, **(kwargs or {}))
            code = 0
        except SystemExit as ex:
            if ex.code is None:
                code = 0
            elif isinstance(ex.code, int):
                code = ex.code & 0xFF
            else:
                try:
                    sys.stderr.write(str(ex.code) + "\n")
                except Exception:
                    pass
                code = 1
            exc = ("SystemExit", type(ex.code).__name__)
        except BaseException as ex:
            sys.__stderr__.write(traceback.format_exc())
            try:
                exc = (type(ex).__name__, str(ex)[:2000])
            except Exception:
                exc = (type(ex).__name__, "")
            code = 1
        _finish_python(ctx)
        if gatefd >= 0:
            from . import kernel
            kernel.client_exit(ctx, code)
        lib.sim_off()
        with REAL_OPEN(paths["val"], "wb") as fil:
            pickle.dump((value, exc), fil)
    except BaseException:
        lib.sim_off()
        os.write(2, traceback.format_exc().encode("utf-8", "replace"))
        code = 70
        try:
            with REAL_OPEN(paths["val"], "wb") as fil:
                pickle.dump((None, ("HARNESS", traceback.format_exc())), fil)
        except BaseException:
            pass
    finally:
        os._exit(code)


class World(object):

    def __init__(self, base, name="w"):
        self.base = base
        self.root = os.path.join(base, name)
        self.io = os.path.join(base, "io-" + name)
        for path in (self.root, self.io):
            shutil.rmtree(path, ignore_errors=True)
            os.makedirs(path)
        self.clock = native.Clock()
        self.count = 0
        self.history = []        # Result objects, in order
        self.snaps = 0

    # ---------------------------------------------------------------- files
    def path(self, *names):
        return os.path.join(self.root, *names)

    def write(self, rel, data):
        full = self.path(rel)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if isinstance(data, str):
            data = data.encode("utf-8")
        with open(full, "wb") as fil:
            fil.write(data)

    def read(self, rel):
        try:
            with open(self.path(rel), "rb") as fil:
                return fil.read()
        except (FileNotFoundError, NotADirectoryError, IsADirectoryError):
            return None

    def remove(self, rel):
        try:
            os.remove(self.path(rel))
        except FileNotFoundError:
            pass

    def files(self, skip=(".noworkflow",), sub=""):
        """{relative path: bytes} of everything outside the store."""
        found = {}
        top = self.path(sub) if sub else self.root
        for dirname, dirs, names in os.walk(top):
            dirs[:] = sorted(d for d in dirs if d not in skip)
            for name in sorted(names):
                full = os.path.join(dirname, name)
                if os.path.islink(full):
                    found[os.path.relpath(full, top)] = b"-> " + os.fsencode(os.readlink(full))
                    continue
                if not os.path.isfile(full):
                    found[os.path.relpath(full, top)] = b"(special)"
                    continue
                with open(full, "rb") as fil:
                    found[os.path.relpath(full, top)] = fil.read()
        return found

    def snapshot(self):
        self.snaps += 1
        dst = os.path.join(self.base, "snap-%s-%d" % (os.path.basename(self.root), self.snaps))
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(self.root, dst, symlinks=True)
        return (dst, self.clock.mono, self.clock.skew, self.count)

    def restore(self, snap):
        dst, mono, skew, count = snap
        for name in os.listdir(self.root):
            full = os.path.join(self.root, name)
            if os.path.isdir(full) and not os.path.islink(full):
                shutil.rmtree(full)
            else:
                os.remove(full)
        for name in os.listdir(dst):
            full = os.path.join(dst, name)
            if os.path.isdir(full):
                shutil.copytree(full, os.path.join(self.root, name), symlinks=True)
            else:
                shutil.copy2(full, os.path.join(self.root, name))
        self.clock.mono, self.clock.skew, self.count = mono, skew, count

    # ------------------------------------------------------------ processes
    def io_paths(self, name, count):
        stem = os.path.join(self.io, "%03d" % count)
        return {kind: stem + "." + kind for kind in ("out", "err", "log", "val")}

    def run(self, fn, args=(), kwargs=None, faults=(), read_ops=False, name=None,
            cwd="", seed=None, timeout=60):
        """Run fn in a simulated process to its end."""
        self.count += 1
        count = self.count
        name = name or getattr(fn, "__name__", "proc")
        paths = self.io_paths(name, count)
        for path in paths.values():
            if os.path.exists(path):
                os.remove(path)
        seed = count if seed is None else seed
        read_ops = read_ops or any(f.get("cls") == "R" for f in faults)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            child_main(self, name, fn, args, kwargs, faults, read_ops,
                       self.path(cwd) if cwd else self.root, seed, paths)
        status = wait(pid, timeout)
        result = collect(name, paths, status)
        self.history.append(result)
        return result

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)
        shutil.rmtree(self.io, ignore_errors=True)
        for name in os.listdir(self.base):
            if name.startswith("snap-%s-" % os.path.basename(self.root)):
                shutil.rmtree(os.path.join(self.base, name), ignore_errors=True)


def wait(pid, timeout):
    """waitpid with a real-time watchdog; None when the process hung."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        while True:
            try:
                _, status = os.waitpid(pid, 0)
                return status
            except _Alarm:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class _Alarm(Exception):
    pass


def _alarm(*_):
    raise _Alarm()


def slurp(path):
    try:
        with open(path, "rb") as fil:
            return fil.read().decode("utf-8", "replace")
    except FileNotFoundError:
        return ""


def collect(name, paths, status):
    res = Result(name)
    res.out, res.err = slurp(paths["out"]), slurp(paths["err"])
    res.ops = parse_ops(slurp(paths["log"]))
    if status is None:
        res.status = "hang"
    elif os.WIFSIGNALED(status):
        res.status, res.code = "signal", os.WTERMSIG(status)
    else:
        res.code = os.WEXITSTATUS(status)
        if os.path.exists(paths["val"]):
            res.status = "exit"
            with open(paths["val"], "rb") as fil:
                res.value, res.exception = pickle.load(fil)
            if res.exception and res.exception[0] == "HARNESS":
                raise HarnessError(res.exception[1])
        elif res.code == native.CRASH_STATUS:
            res.status = "crash"
        else:
            # the process ended itself behind the simulator's back
            # (os._exit in the code under test)
            res.status = "exit"
    return res
