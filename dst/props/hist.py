"""Random histories of runs and restores of a few scripts, with kills and errors, in one store."""
import random

from . import common as c
from . import nw
from .. import kernel as kernel_mod
from .. import target

SCRIPTS = ["s.py", "s.py", "s.py", "t.py", "ts.py"]
TEXT = ["x = %d\nprint(x)\n", "import mod\nprint(mod.value, %d)\n", "with open('data.txt') as fil:\n    y = fil.read()\nz = %d\n",
        "def f(n):\n    return n + %d\nprint(f(2))\n", "import sys\nprint(sys.argv, %d)\nif len(sys.argv) > 2:\n    sys.exit(3)\n",
        "with open('data.txt', 'a') as fil:\n    fil.write('more%d')\n", "raise ValueError(%d)\n"]
ARGS = [[], [], [], ["a"], ["b", "c"], ["--name", "x"]]


def text_of(name, ver):
    if name == "mod.py":
        return "value = %d\n" % ver
    if name == "data.txt":
        return "data %d\n" % ver
    return TEXT[ver % len(TEXT)] % (ver // len(TEXT))


def burst(rng):
    """Many runs: versions with two digits."""
    script, kind = rng.choice(SCRIPTS), rng.choice(["same", "args", "text"])
    rows = []
    for number in range(rng.randrange(9, 12)):
        if kind == "text":
            rows.append({"do": "edit", "file": script, "ver": 7 * number})
        rows.append({"do": "run", "script": script, "args": [str(number)] if kind == "args" else [], "hit": None})
    return rows


def steps(rng, count, both=.1, fault=.2, restore=.3):
    rows = []
    for name in ("s.py", "t.py", "ts.py", "mod.py", "data.txt"):
        rows.append({"do": "edit", "file": name, "ver": rng.randrange(14)})
    for _ in range(count):
        pick = rng.random()
        hit = rng.randrange(10 ** 6) if rng.random() < fault else None
        if pick < .25:
            rows.append({"do": "edit", "file": rng.choice(["s.py", "s.py", "t.py", "ts.py", "mod.py", "data.txt"]),
                         "ver": rng.randrange(14)})
        elif pick < .25 + restore:
            if rng.random() < .6:
                rows.append({"do": "edit", "file": rng.choice(["s.py", "s.py", "t.py", "mod.py", "data.txt"]),
                             "ver": rng.randrange(14)})
            rows.append({"do": "restore", "ref": rng.randrange(100), "how": rng.choice(["id", "id", "tag", "seq"]),
                         "opts": rng.choice([[], [], [], ["-s"], ["-l"], ["-a"], ["-s", "-a"]]), "hit": hit})
        elif pick < .25 + restore + both:
            rows.append({"do": "both", "seed": rng.randrange(10 ** 6), "runs": [
                {"script": rng.choice(SCRIPTS), "args": rng.choice(ARGS)} for _ in range(rng.choice([2, 2, 3]))],
                "hit": hit})
        else:
            rows.append({"do": "run", "script": rng.choice(SCRIPTS), "args": rng.choice(ARGS),
                         "same": rng.random() < .3, "hit": hit})
    return rows


def taken_up(rng):
    """An older trial is taken up, then another restore is cut short, late, then the script runs."""
    script, rows = rng.choice(SCRIPTS), []
    for _ in range(4):
        rows.append({"do": "run", "script": script, "args": rng.choice(ARGS), "hit": None})
    first, second = rng.sample([0, 1, 2], 2)
    rows.append({"do": "restore", "of": script, "ref": first, "how": "id", "opts": [], "hit": None})
    rows.append({"do": "restore", "of": script, "ref": second, "how": "id", "opts": [],
                 "hit": rng.randrange(10 ** 6), "late": True})
    rows.append({"do": "run", "script": script, "args": rng.choice(ARGS), "hit": None})
    return rows


def simplify(rows):
    for fewer in c.drop_each(rows):
        yield fewer
    for i, row in enumerate(rows):
        if row.get("hit") is not None:
            yield rows[:i] + [dict(row, hit=None)] + rows[i + 1:]
        if row["do"] == "both" and len(row["runs"]) > 2:
            yield rows[:i] + [dict(row, runs=row["runs"][:2])] + rows[i + 1:]


def play(sc, world, out, see):
    """Do the steps; see(step, before, after, result) looks at the store around each run and restore."""
    engine = sc["engine"]
    before = nw.dump(world)
    for number, step in enumerate(sc["steps"]):
        world.clock.skew += 10 ** 9
        if step["do"] == "edit":
            world.write(step["file"], text_of(step["file"], step["ver"]).encode())
            continue
        if step["do"] == "restore":
            trials = [t for t in before.trials if step.get("of") in (None, t["script"])]
            if not trials:
                continue
            trial = trials[step["ref"] % len(trials)]
            ref = trial["id"]
            if step["how"] == "tag":
                ref = ([t["name"] for t in before["tag"] if t["trial_id"] == trial["id"]] + [ref])[0]
            elif step["how"] == "seq":
                ref = str(trial["sequence_key"])
            step = dict(step, trial=trial)
            argv = ["restore", ref] + step["opts"]
        elif step["do"] == "run":
            argv = ["run", step["script"]] + step["args"]
        if step["do"] == "both":
            res = both(world, out, engine, step)
        else:
            res = one(sc, world, out, engine, step, argv, number)
        after = nw.dump(world)
        step["number"] = number
        see(step, before, after, res)
        before = after
    return before


def one(sc, world, out, engine, step, argv, number):
    seed = sc["seed"] + number
    if step["hit"] is None:
        return nw.now(world, out, engine, *argv, seed=seed)
    snap = world.snapshot()
    kinds = nw.now(world, out, engine, *argv, seed=seed).kinds
    rng = random.Random(step["hit"])
    wanted = (lambda k: "db.sqlite" in k[1] and k[0] != "sync") if rng.random() < .6 or step.get("late") else None
    fault = c.pick_faults(rng, kinds, want=wanted)
    for _ in range(40 if step.get("late") else 0):       # in the last quarter of them
        if fault is None or fault["op"] >= len(kinds) * 3 // 4:
            break
        fault = c.pick_faults(rng, kinds, want=wanted)
    world.restore(snap)
    res = nw.now(world, out, engine, *argv, seed=seed, faults=[fault] if fault else [])
    if fault:
        out.probe("fault")
        step["where"] = "%s at %s" % (fault, kinds[fault["op"]][:2])
    return res


class Many(object):
    """The results of concurrent processes."""

    def __init__(self, results):
        self.results = results

    def brief(self):
        return " / ".join(r.brief() for r in self.results)

    @property
    def err(self):
        return "\n".join(r.err for r in self.results)


def both(world, out, engine, step):
    """Several runs at the same time."""
    ker = kernel_mod.Kernel(world, random.Random("b%s" % step["seed"]), .5)
    procs = []
    for number, spec in enumerate(step["runs"]):
        fault = []
        if step["hit"] is not None and number == 0:
            fault = [{"op": step["hit"] % 150, "act": random.Random(step["hit"]).choice(["crash_before", "crash_after"])}]
        procs.append(ker.spawn("now-run%d" % number, target.now, nw.argv_for(engine, ["run", spec["script"]] + spec["args"]),
                               faults=fault))
    ker.run()
    results = [out.proc(p.result) for p in procs]
    for res in results:
        if ker.outcome:
            res.status = ker.outcome
        world.history.append(res)
    out.stats["scheduler_steps"] += ker.steps
    out.stats["context_switches"] += ker.switches
    out.note("both", ker.steps, ker.switches, c.hash_trace(ker.trace))
    out.probe("concurrent")
    return Many(results)


def show(sc):
    return " ".join("%s%s" % (s["do"][0], s.get("file", s.get("script", s.get("ref", "")))) for s in sc["steps"])
