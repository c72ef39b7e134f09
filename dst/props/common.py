"""Shared pieces of the scenarios: how to run things on a simulated machine."""
import errno
import os
import random
import sys

from .. import kernel as kernel_mod
from .. import target
from .. import threads as threads_mod
from .. import world as world_mod

SYNC = ["plain", "sequential_pygit", "sequential_dulwich", "puregit", "gitdb"]
SCHEDULED = ["distributed_pygit", "pool_pygit", "distributed_dulwich", "pool_dulwich"]
THREADED = ["threading_pygit", "threading_dulwich"]
GIT = [e for e in SYNC + SCHEDULED + THREADED if e != "plain"]

REAL_ALL = ["noworkflow (whole package, from /repo/capture)", "SQLite", "SQLAlchemy", "libgit2/pygit2",
            "dulwich", "gitdb", "the file system (tmpfs)"]


def mode_of(engine):
    if engine in SCHEDULED or engine is None or engine in ("pygit",):
        return "kernel"
    if engine in THREADED:
        return "threads"
    return "local"


def threaded(seed, rate, files, fn, args):
    """Body of a process whose threads are scheduled."""
    sim = threads_mod.ThreadSim(seed, files, rate).install()
    value = fn(*args)
    sim_stats = (sim.switches, sim.lines)
    return (value, sim_stats)


THREAD_FILES = ("/noworkflow/now/persistence/", "/dulwich/")


def run(world, out, engine, fn, args=(), faults=(), seed=0, cpus=2, name=None, cwd="", rate=0.2,
        stickiness=0.5, read_ops=False, files=THREAD_FILES):
    """Run fn as one simulated process in the way its engine needs."""
    mode = mode_of(engine)
    name = name or fn.__name__
    if mode == "kernel":
        from .. import mp
        mp.CPUS = cpus
        ker = kernel_mod.Kernel(world, random.Random("k%s" % seed), stickiness)
        proc = ker.spawn(name, fn, args, faults=faults, cwd=cwd, read_ops=read_ops)
        ker.run()
        res = proc.result
        if ker.outcome:
            res.status = ker.outcome
        world.history.append(res)
        out.stats["scheduler_steps"] += ker.steps
        out.stats["context_switches"] += ker.switches
        out.note("kernel", ker.steps, ker.switches, hash_trace(ker.trace))
        for op in sub_ops(world, ker):
            if op[6]:
                from ..driver import fault_name
                out.faults[fault_name(op)] += 1
        res.kernel = ker
        res.kinds = proc.kinds
    elif mode == "threads":
        res = world.run(threaded, (seed, rate, files, fn, args), faults=faults, name=name, cwd=cwd,
                        read_ops=read_ops)
        if res.value is not None and res.exception is None:
            res.value, (switches, lines) = res.value
            out.stats["context_switches"] += switches
            out.note("threads", switches, lines)
        elif res.code == 99 and res.status == "exit":
            res.status = "deadlock"
    else:
        res = world.run(fn, args, faults=faults, name=name, cwd=cwd, read_ops=read_ops)
    if mode != "kernel":
        res.kinds = [(op[2], op[3], op[5]) for op in res.ops if op[0] == "W"]
    return out.proc(res)


def pick_faults(rng, kinds, crash=True, errors=True, want=None):
    """One fault at one of the mutating operations [(kind, path, size)] of a
    profiled run; None when there is nothing to hit."""
    if not kinds:
        return None
    if want is not None:
        spots = [i for i, k in enumerate(kinds) if want(k)]
        if not spots:
            return None
    else:
        spots = range(len(kinds))
    op = spots[rng.randrange(len(spots))]
    kind = kinds[op][0]
    acts = []
    if crash:
        acts += ["crash_before", "crash_after"]
        if kind in ("write", "pwrite", "sendfile"):
            acts += ["torn", "torn"]
    if errors:
        acts += ["ENOSPC", "EIO"]
        if kind in ("write", "pwrite", "sendfile"):
            acts += ["short"]
        if kind in ("create", "mkdir", "rename", "unlink", "exec"):
            acts += ["EACCES", "EMFILE"]
        acts += ["full"]
    act = rng.choice(acts)
    if act in ("torn", "short"):
        return {"op": op, "act": act, "param": rng.choice([0, 1, 300, 500, 999])}
    if act == "full":
        return {"op": op, "act": "errno", "param": errno.ENOSPC, "until": op + rng.choice([3, 20, 100000])}
    if act.startswith("crash"):
        return {"op": op, "act": act}
    return {"op": op, "act": "errno", "param": getattr(errno, act)}


def sub_ops(world, ker):
    ops = []
    for proc in ker.procs:
        if proc.pid is None:
            path = os.path.join(world.io, "sub-%03d.log" % proc.number)
            ops += world_mod.parse_ops(world_mod.slurp(path))
    return ops


def hash_trace(trace):
    import hashlib
    return hashlib.sha1(repr(trace).encode("utf-8", "replace")).hexdigest()[:12]


# --------------------------------------------------------- content store API
def open_store(engine, path=None):
    from noworkflow.now.persistence import persistence_config, content
    persistence_config.content_engine = engine
    persistence_config.connect(path or os.getcwd())
    return content


def put_all(engine, items, finish="commit", message="snapshot", read_back=()):
    """Store items [(name, bytes)]; returns (ids, errors, early reads)."""
    content = open_store(engine)
    ids, reads = [], []
    for index, (name, data) in enumerate(items):
        try:
            ids.append(content.put(data, name))
        except (OSError, RuntimeError, ValueError, KeyError) as exc:
            ids.append(("error", type(exc).__name__, str(exc)[:200]))
        if index in read_back:
            try:
                reads.append((index, content.get(ids[-1])))
            except Exception as exc:
                reads.append((index, ("error", type(exc).__name__, str(exc)[:200])))
    fin = None
    try:
        if finish == "commit":
            content.commit_content(message)
        elif finish == "close":
            content.close()
    except Exception as exc:
        fin = (type(exc).__name__, str(exc)[:300])
    return ids, reads, fin


def get_all(engine, ids, prefixes=()):
    content = open_store(engine)
    got = []
    for ident in ids:
        try:
            got.append(content.get(ident))
        except Exception as exc:
            got.append(("error", type(exc).__name__, str(exc)[:200]))
    found = []
    for prefix in prefixes:
        try:
            found.append(content.find_subhash(prefix))
        except Exception as exc:
            found.append(("error", type(exc).__name__, str(exc)[:200]))
    try:
        content.close()
    except Exception as exc:
        found.append(("close", repr(exc)))
    return got, found


# ------------------------------------------------------------ case generators
def gen_bytes(rng, big=False):
    kind = rng.randrange(9)
    if kind == 0:
        return b""
    if kind == 1:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(1, 40)))
    if kind == 2:
        return ("line %d\r\n" % rng.randrange(5) * rng.randrange(1, 6)).encode()
    if kind == 3:
        return "h\u00e9llo \u2603 %d\n".encode("utf-8") * 1 if rng.random() < .5 else \
            ("h\u00e9llo %d" % rng.randrange(9)).encode("latin-1")
    if kind == 4:
        return b"\x00" * rng.randrange(1, 30) + b"x"
    if kind == 5:
        return b"blob 3\x00abc"
    if kind == 6 and big:
        return (b"%06d" % rng.randrange(10 ** 6)) * rng.randrange(2000, 40000)
    if kind == 7:
        return b"a" * rng.randrange(1, 12000)
    return b"value %d" % rng.randrange(6)


def enc(data):
    """bytes -> JSON-safe text, and back with dec()."""
    return data.decode("latin-1")


def dec(text):
    return text.encode("latin-1")


def drop_each(seq):
    """Shorter variants of a list: halves first, then single removals."""
    size = len(seq)
    if size > 2:
        yield seq[:size // 2]
        yield seq[size // 2:]
    for index in range(size):
        yield seq[:index] + seq[index + 1:]
