"""Build and drive the C seam (native/simfs.c)."""
import ctypes
import fcntl
import hashlib
import mmap
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(HERE, "native", "simfs.c")
BUILD = os.path.join(os.path.dirname(HERE), "build")

OK, CRASH_BEFORE, CRASH_AFTER, ERRNO, TORN, SHORT = range(6)
ACTIONS = {"ok": OK, "crash_before": CRASH_BEFORE, "crash_after": CRASH_AFTER,
           "errno": ERRNO, "torn": TORN, "short": SHORT}
CRASH_STATUS = 137


def library():
    """Path of the built library, building it when the source changed."""
    with open(SRC, "rb") as fil:
        digest = hashlib.sha1(fil.read()).hexdigest()[:12]
    target = os.path.join(BUILD, "simfs-%s.so" % digest)
    if os.path.exists(target):
        return target
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(target):
            tmp = "%s.%d" % (target, os.getpid())
            subprocess.check_call(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, SRC, "-ldl"])
            os.rename(tmp, target)
    return target


def reexec(argv):
    """Restart the interpreter under the seam with a fixed environment."""
    if os.environ.get("NWSIM") == "1":
        return
    env = {
        "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
        "HOME": "/root", "LANG": "C.UTF-8", "USER": "root", "LOGNAME": "root",
        "TZ": "UTC", "MPLBACKEND": "Agg",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": os.environ.get("NWSIM_HASHSEED", "0"),
        "PYTHONWARNINGS": "ignore",
        "NWSIM": "1",
        "LD_PRELOAD": library(),
    }
    for name in ("VERIF_SEED", "VERIF_TIER", "NWSIM_WORKERS", "NWSIM_BUDGET",
                 "NWSIM_RUNS", "NWSIM_REPO", "NWSIM_EVIDENCE", "NWSIM_REPLAYS", "NWSIM_DEBUG",
                 "NWSIM_SURVEY"):
        if name in os.environ:
            env[name] = os.environ[name]
    python = "/opt/venv/bin/python"
    if not os.path.exists(python):
        python = sys.executable
    # no address randomisation: sets of objects hash by address
    ctypes.CDLL(None).personality(0x0040000)
    os.execve(python, [python, "-B"] + argv, env)


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.sim_on.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int,
                                ctypes.c_uint64, ctypes.c_int]
        _lib.sim_regate.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_uint64, ctypes.c_int]
        _lib.sim_plan.argtypes = [ctypes.c_int64] + [ctypes.c_int] * 4
        _lib.sim_ops.restype = ctypes.c_int64
        _lib.sim_rops.restype = ctypes.c_int64
        _lib.sim_fired.restype = ctypes.c_int64
        _lib.sim_set_shared.argtypes = [ctypes.c_void_p]
        _lib.sim_point.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int64]
    return _lib


class Clock(object):
    """The simulated clock: one page shared by every process of a world."""

    BASE = 1600000000 * 10 ** 9

    def __init__(self):
        self.page = mmap.mmap(-1, 4096)
        self.words = (ctypes.c_int64 * 4).from_buffer(self.page)
        self.reset()

    def reset(self):
        self.words[0] = 0
        self.words[1] = 0
        self.words[2] = self.BASE
        self.words[3] = 1000

    def attach(self):
        lib().sim_set_shared(ctypes.addressof(self.words))

    mono = property(lambda s: s.words[0], lambda s, v: s.words.__setitem__(0, v))
    skew = property(lambda s: s.words[1], lambda s, v: s.words.__setitem__(1, v))
    tick = property(lambda s: s.words[3], lambda s, v: s.words.__setitem__(3, v))
