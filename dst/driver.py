"""Runs a property's scenarios, shrinks failures, writes evidence and replays."""
import collections
import hashlib
import importlib
import json
import multiprocessing.connection  # noqa: real, before mp.install()
import os
import pickle
import random
import select
import shutil
import signal
import sqlite3
import struct
import sys
import time
import traceback

from . import native
from .world import HarnessError, World, default_base

SURVEY = os.environ.get("NWSIM_SURVEY")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Outcome(object):
    """What one scenario showed."""

    def __init__(self):
        self.violations = []         # (key, text)
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.signature = []          # parts: what makes the run distinct
        self.nontrivial = True
        self.log = []                # determinism log
        self.sim_ns = 0

    def violate(self, key, text):
        self.violations.append((key, str(text)[:4000]))

    def check(self, cond, key, text):
        if not cond:
            self.violate(key, text() if callable(text) else text)
        return bool(cond)

    def probe(self, name, count=1):
        self.probes[name] += count

    def note(self, *parts):
        self.log.append(" ".join(str(p) for p in parts))

    def proc(self, res, gated=False):
        """Account for a finished simulated process."""
        self.stats["processes"] += 1
        self.stats["disk_ops"] += len([o for o in res.ops if o[0] == "W"])
        for op in res.ops:
            if op[6]:
                self.faults[fault_name(op)] += 1
        if os.environ.get("NWSIM_DEBUG"):
            from .kernel import mask
            for op in res.ops:
                self.note(op[0], op[2], mask(op[3]), mask(op[4]), op[5])
        self.note(res.brief(), len(res.ops))
        return res


ACT = {v: k for k, v in native.ACTIONS.items()}


def fault_name(op):
    name = ACT.get(op[6], "?")
    if name == "errno":
        import errno
        name = errno.errorcode.get(op[7], str(op[7]))
    return "%s@%s" % (name, op[2])


def scratch_root(pid):
    """A directory of this run, at a path that is the same for every run of
    the property (paths end up in stored data), unless two runs overlap."""
    import fcntl
    for number in range(10):
        root = os.path.join(default_base(), "nwsim%d" % number, pid)
        os.makedirs(root, exist_ok=True)
        lock = os.open(os.path.join(root, ".lock"), os.O_RDWR | os.O_CREAT)
        try:
            fcntl.flock(lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
        except OSError:
            os.close(lock)
            continue
        os.set_inheritable(lock, False)
        for name in os.listdir(root):
            if name != ".lock":
                shutil.rmtree(os.path.join(root, name), ignore_errors=True)
        return root
    raise HarnessError("ten runs of %s at once" % pid)


class Env(object):
    """What a scenario gets from the driver: scratch space."""

    def __init__(self, root, index):
        self.base = os.path.join(root, "%06d" % (index % 1000000))
        os.makedirs(self.base, exist_ok=True)
        self.worlds = []

    def world(self, name="w"):
        world = World(self.base, name)
        world.clock.reset()
        self.worlds.append(world)
        return world

    def close(self):
        for world in self.worlds:
            world.close()
        self.worlds = []
        shutil.rmtree(self.base, ignore_errors=True)
        os.makedirs(self.base, exist_ok=True)

    def remove(self):
        self.close()
        shutil.rmtree(self.base, ignore_errors=True)


def load_prop(pid):
    return importlib.import_module("dst.props." + pid)


def rng_for(pid, seed, index):
    return random.Random("%s:%s:%s" % (pid, seed, index))


def run_one(mod, scenario, env):
    """Execute one scenario; harness trouble is raised, never a verdict."""
    out = Outcome()
    try:
        try:
            mod.execute(scenario, env, out)
        except (LookupError, TypeError, ValueError, AttributeError, sqlite3.Error) as exc:
            # what the code under test left behind cannot even be read
            out.violate("unreadable-%s" % type(exc).__name__, traceback.format_exc())
        out.sim_ns = sum(w.clock.mono for w in env.worlds)
    finally:
        env.close()
    return out


def pack(out):
    return {
        "violations": out.violations, "stats": dict(out.stats), "faults": dict(out.faults),
        "probes": dict(out.probes), "nontrivial": out.nontrivial, "sim_ns": out.sim_ns,
        "sig": hashlib.sha1(repr(out.signature).encode()).hexdigest()[:16],
        "log": hashlib.sha1("\n".join(out.log).encode("utf-8", "replace")).hexdigest(),
        "loglines": out.log if os.environ.get("NWSIM_DEBUG") else None,
    }


# ------------------------------------------------------------------- workers
def pin(number):
    """Keep a worker and its simulated processes on one core: only one of them
    runs at a time, and waking another core for each step costs far more."""
    try:
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[number % len(cpus)]})
    except (AttributeError, OSError):
        pass


def worker_main(pid, seed, number, rfd, wfd, base):
    os.setsid()
    pin(number)
    mod = load_prop(pid)
    while True:
        data = os.read(rfd, 8)
        if len(data) < 8:
            os._exit(0)
        index = struct.unpack("<q", data)[0]
        if index < 0:
            os._exit(0)
        start = time.time()
        env = Env(base, index)
        try:
            scenario = mod.generate(rng_for(pid, seed, index), index)
            res = pack(run_one(mod, scenario, env))
            res["scenario"] = scenario if res["violations"] else None
            if index < 3:
                res["sample"] = scenario
        except BaseException:
            res = {"error": traceback.format_exc()}
        env.remove()
        res["index"] = index
        res["wall"] = time.time() - start
        payload = pickle.dumps(res)
        payload = struct.pack("<I", len(payload)) + payload
        while payload:
            payload = payload[os.write(wfd, payload):]


class Pool(object):

    def __init__(self, pid, seed, count, base):
        self.workers = []
        for number in range(count):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid_ = os.fork()
            if pid_ == 0:
                os.close(w1)
                os.close(r2)
                for other in self.workers:
                    os.close(other[1])
                    os.close(other[2])
                worker_main(pid, seed, number, r1, w2, base)
            os.close(r1)
            os.close(w2)
            self.workers.append([pid_, w1, r2, None])

    def _read(self, fd, count):
        buf = b""
        while len(buf) < count:
            part = os.read(fd, count - len(buf))
            if not part:
                return None
            buf += part
        return buf

    def run(self, indexes, deadline, on_result):
        todo = collections.deque(indexes)
        busy = {}
        for worker in self.workers:
            if todo:
                idx = todo.popleft()
                os.write(worker[1], struct.pack("<q", idx))
                busy[worker[2]] = (worker, idx)
        stop = False
        while busy:
            ready, _, _ = select.select(list(busy), [], [], 5)
            for fd in ready:
                worker, idx = busy.pop(fd)
                head = self._read(fd, 4)
                if head is None:
                    on_result({"index": idx, "error": "worker died"})
                    continue
                res = pickle.loads(self._read(fd, struct.unpack("<I", head)[0]))
                if on_result(res):
                    stop = True
                if todo and not stop and time.time() < deadline:
                    nxt = todo.popleft()
                    os.write(worker[1], struct.pack("<q", nxt))
                    busy[fd] = (worker, nxt)
            if time.time() > deadline + 200:
                for worker, idx in busy.values():
                    on_result({"index": idx, "error": "scenario did not end (wall clock)"})
                break
        return len(todo)

    def close(self):
        for pid, wfd, rfd, _ in self.workers:
            try:
                os.close(wfd)
            except OSError:
                pass
            try:
                os.killpg(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass


# ------------------------------------------------------------ known findings
def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fil:
        data = json.load(fil)
    return [f for f in data["findings"] if f["property"] == pid]


# ------------------------------------------------------------------- shrink
def isolated(mod, scenario, env):
    """run_one in a fork, so that a scenario cannot disturb the next."""
    return pack(run_one(mod, scenario, env))


def shrink(mod, scenario, key, env, budget):
    """Greedy minimisation keeping the violation class."""
    end = time.time() + budget
    best = scenario
    tried = 0
    progress = True
    seen = set()
    while progress and time.time() < end:
        progress = False
        for cand in mod.simplify(best):
            text = json.dumps(cand, sort_keys=True)
            if text in seen:
                continue
            seen.add(text)
            if time.time() > end:
                break
            tried += 1
            try:
                out = run_one(mod, cand, env)
            except Exception:
                env.close()
                continue
            if any(k == key for k, _ in out.violations):
                best = cand
                progress = True
                break
    return best, tried


def write_replay(pid, key, text, scenario, extra):
    folder = os.environ.get("NWSIM_REPLAYS") or os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    body = {"property": pid, "key": key, "violation": text, "scenario": scenario}
    body.update(extra)
    data = json.dumps(body, indent=1, sort_keys=True)
    name = "%s-%s.json" % (pid, hashlib.sha1(data.encode()).hexdigest()[:10])
    path = os.path.join(folder, name)
    with open(path, "w") as fil:
        fil.write(data + "\n")
    return path


def merge(total, part):
    for key, value in part.items():
        total[key] += value


def check(pid, seed, tier):
    """The check of one property.  Returns the exit status."""
    from . import target
    start = time.time()
    try:
        target.load()
    except BaseException:
        traceback.print_exc()
        print("ERROR: the package under test does not import")
        return 2
    mod = load_prop(pid)
    runs = int(os.environ.get("NWSIM_RUNS") or mod.RUNS[tier])
    budget = float(os.environ.get("NWSIM_BUDGET") or (60 if tier == "quick" else 3 * 3600))
    workers = int(os.environ.get("NWSIM_WORKERS") or min(8, os.cpu_count() or 1))
    base = scratch_root(pid)
    totals = {"stats": collections.Counter(), "faults": collections.Counter(),
              "probes": collections.Counter()}
    signatures, nontrivial_sigs = set(), set()
    logs, errors, bad = {}, [], []
    lines = {}
    samples = []
    state = {"runs": 0, "sim_ns": 0, "slow": 0.0}
    known = known_findings(pid)
    known_keys = {f["key"] for f in known}
    suppressed = collections.Counter()

    def on_result(res):
        if "error" in res:
            errors.append(res)
            return len(errors) > 3
        state["runs"] += 1
        state["sim_ns"] += res["sim_ns"]
        state["slow"] = max(state["slow"], res["wall"])
        for name in totals:
            merge(totals[name], res[name])
        signatures.add(res["sig"])
        if res["nontrivial"]:
            nontrivial_sigs.add(res["sig"])
        logs[res["index"]] = res["log"]
        lines[res["index"]] = res["loglines"]
        if res.get("sample") is not None:
            samples.append(res["sample"])
        fresh = [v for v in res["violations"] if v[0] not in known_keys]
        for key, _ in res["violations"]:
            if key in known_keys:
                suppressed[key] += 1
        if fresh:
            bad.append((res["index"], fresh, res["scenario"]))
            return len(bad) >= 3 and not SURVEY
        return False

    status = 0
    left = 0
    audit = {}
    pool = Pool(pid, seed, workers, base)
    try:
        fixed = getattr(mod, "FIXED", 0)
        left = pool.run(range(runs), start + budget, on_result)
        if SURVEY:
            seen = collections.OrderedDict()
            for index, fresh, scenario in sorted(bad, key=lambda b: b[0]):
                for key, text in fresh:
                    seen.setdefault(key, []).append((index, text))
            for key, hits in seen.items():
                print("SURVEY %s x%d e.g. run %d: %s" % (key, len(hits), hits[0][0], hits[0][1][:1500]))
            bad = []
        if not bad and not errors:
            # determinism audit: repeat a sample, compare the event logs
            again = {}

            def on_again(res):
                if res.get("loglines") and res["loglines"] != lines[res["index"]]:
                    for one, two in zip(lines[res["index"]], res["loglines"]):
                        if one != two:
                            print("DIVERGED", res["index"], one[:300], "|", two[:300])
                            break
                again[res["index"]] = res.get("log") or "error: " + res.get("error", "")
                return False
            sample = sorted(logs)[::max(1, len(logs) // mod.AUDIT)][:mod.AUDIT] if getattr(mod, "AUDIT", 0) else []
            pool.run(sample, start + budget + 120, on_again)
            diverged = [i for i in again if again[i] != logs[i]]
            audit = {"repeated": len(again), "diverged": len(diverged),
                     "diverged_indexes": diverged[:10]}
    finally:
        pool.close()

    env = Env(base, 999999)
    replay = None
    try:
        if errors and not bad:
            # a harness problem: try once more in this process before giving up
            for res in list(errors):
                sys.stdout.write("harness error in run %s:\n%s\n" % (res["index"], res["error"]))
            status = 2
        for index, fresh, scenario in bad[:1]:
            key, text = fresh[0]
            env.remove()
            env = Env(base, index)
            out = run_one(mod, scenario, env)
            keys = [k for k, _ in out.violations]
            if key not in keys:
                print("ERROR: run %d did not repeat (%s), got %s" % (index, key, keys))
                status = 3
                continue
            best, tried = shrink(mod, scenario, key, env, 60 if tier == "quick" else 600)
            out = run_one(mod, best, env)
            text = [t for k, t in out.violations if k == key][0]
            replay = write_replay(pid, key, text, best, {
                "seed": seed, "index": index, "shrink_steps": tried,
                "trace": out.log[-200:]})
            print("%s: %s" % (key, text))
            print("seed=%s run=%d minimised in %d steps" % (seed, index, tried))
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            status = 1
        for finding in known:
            shown = False
            if finding.get("scenario") is not None:
                out = run_one(mod, finding["scenario"], env)
                keys = [k for k, _ in out.violations]
                shown = finding["key"] in keys
                for key, text in out.violations:
                    if key not in known_keys and status == 0:
                        replay = write_replay(pid, key, text, finding["scenario"], {
                            "seed": seed, "index": -1, "trace": out.log[-200:]})
                        print("%s: %s" % (key, text))
                        print("VIOLATION property=%s replay=%s" % (pid, replay))
                        status = 1
            if shown or suppressed.get(finding["key"]):
                print("KNOWN-FINDING: property=%s %s" % (pid, finding["what"]))
            else:
                print("note: known finding %s did not show" % finding["key"])
    finally:
        env.close()
        for name in os.listdir(base):
            if name != ".lock":
                shutil.rmtree(os.path.join(base, name), ignore_errors=True)

    wall = time.time() - start
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": state["runs"],
            "distinct_nontrivial": len(nontrivial_sigs),
            "rule": mod.RULE,
            "samples": samples[:3],
            "not_run_for_time": left,
            "runs_per_hour": round(state["runs"] / max(wall, 0.001) * 3600),
            "simulated_seconds": round(state["sim_ns"] / 1e9, 3),
            "faults_fired": dict(sorted(totals["faults"].items())),
            "probes": dict(sorted(totals["probes"].items())),
            "counts": dict(sorted(totals["stats"].items())),
            "distinct_signatures": len(signatures),
            "determinism_audit": audit,
            "real_components": mod.REAL,
            "stubbed_components": mod.STUBS,
            "known_findings_met": dict(suppressed),
            "harness_errors": len(errors),
        },
        "assumptions": mod.ASSUMES,
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    folder = os.environ.get("NWSIM_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, pid + ".json"), "w") as fil:
        json.dump(evidence, fil, indent=1, sort_keys=True, default=str)
        fil.write("\n")
    print("%s %s seed=%s runs=%d distinct=%d faults=%d processes=%d sim=%.1fs wall=%.1fs status=%d%s" % (
        pid, tier, seed, state["runs"], len(nontrivial_sigs), sum(totals["faults"].values()),
        totals["stats"]["processes"], state["sim_ns"] / 1e9, wall, status,
        " audit=%s" % audit if audit else ""))
    for name, count in sorted(totals["probes"].items()):
        print("  probe %-45s %d" % (name, count))
    return status


def single(pid, seed, index):
    """Run one generated scenario and show everything."""
    from . import target
    target.load()
    mod = load_prop(pid)
    env = Env(scratch_root(pid), index)
    scenario = mod.generate(rng_for(pid, seed, index), index)
    print(json.dumps(scenario, indent=1))
    try:
        out = run_one(mod, scenario, env)
    finally:
        env.remove()
    for line in out.log:
        print("  | " + line)
    for key, text in out.violations:
        print("%s: %s" % (key, text))
    return 0


def replay(path):
    from . import target
    target.load()
    with open(path) as fil:
        body = json.load(fil)
    mod = load_prop(body["property"])
    env = Env(scratch_root(body["property"]), max(body.get("index", 0), 0))
    try:
        out = run_one(mod, body["scenario"], env)
    finally:
        env.remove()
    for key, text in out.violations:
        print("%s: %s" % (key, text))
    for line in out.log:
        print("  | " + line)
    if any(k == body["key"] for k, _ in out.violations):
        print("VIOLATION property=%s replay=%s" % (body["property"], path))
        return 1
    print("the recorded violation did not show")
    return 0


def main():
    args = sys.argv[1:]
    if args and args[0] == "replay":
        sys.exit(replay(args[1]))
    if args and args[0] == "single":
        sys.exit(single(args[1], int(os.environ.get("VERIF_SEED", "1")), int(args[2])))
    pid = args[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(args) > 1:
        tier = args[1]
    code = check(pid, seed, tier)
    sys.stdout.flush()
    os._exit(code)
