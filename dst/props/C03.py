"""An interrupted first use never leaves a store that cannot be used."""
import random

from . import common as c
from . import nw
from .T01 import complete, works

ID = "C03"
LEVEL = "fault_enumeration"
NOTE = ("kills before, after and inside, and errors at, sampled mutating system calls of the first commands in a "
        "directory; no loss of completed writes (no power failure)")
RUNS = {"quick": 130, "thorough": 5000}
AUDIT = 8
RULE = ("A case is the first `now run` of a directory with a generated engine, profiled without fault, then repeated in "
        "a fresh directory with a fault at one of its disk operations, most of them among those that create the store, "
        "once or in two commands in a row. Then, without faults: the next run records a trial with as many rows in "
        "every table as in a fresh directory, complete and readable, which list, show and restore accept, and restore "
        "brings back the script's bytes. Non-trivial: a fault fired.")
REAL = c.REAL_ALL + ["the generated script"]
STUBS = ["clock", "getrandom", "outcome of faulted system calls", "multiprocessing (parallel engines)"]
ASSUMES = ["completed writes survive a crash (no power loss)"]

SCRIPTS = ["print(1)\n",
           "def f(x):\n    with open('out.txt', 'w') as fil:\n        fil.write('x' * x)\n    return x + 1\nprint(f(3))\n",
           "import mod\nprint(mod.g(2))\n"]


def generate(rng, index):
    engine = rng.choice(c.SYNC * 3 + c.SCHEDULED + c.THREADED + ["pygit"])
    if index < 2 * len(c.SYNC):
        engine = c.SYNC[index % len(c.SYNC)]
    return {"engine": engine, "script": rng.randrange(len(SCRIPTS)), "seed": rng.randrange(10 ** 6),
            "next": rng.choice(c.SYNC) if rng.random() < .1 else engine, "list_first": rng.random() < .2,
            "picks": [[rng.randrange(10 ** 6)] + ([rng.randrange(10 ** 6)] if rng.random() < .3 else [])
                      for _ in range(4)]}


def simplify(sc):
    for picks in c.drop_each(sc["picks"]):
        if picks:
            yield dict(sc, picks=picks)
    for index, pick in enumerate(sc["picks"]):
        if len(pick) > 1:
            yield dict(sc, picks=sc["picks"][:index] + [pick[:1]] + sc["picks"][index + 1:])
    if sc["script"]:
        yield dict(sc, script=0)
    if sc["list_first"]:
        yield dict(sc, list_first=False)
    if sc["next"] != sc["engine"]:
        yield dict(sc, next=sc["engine"])


def counts(db, trial_id):
    return dict((table, len(rows)) for table, rows in db.facts(trial_id).items())


def execute(sc, env, out):
    world = env.world()
    text = SCRIPTS[sc["script"]]
    world.write("s.py", text)
    world.write("mod.py", "def g(x):\n    return [x, x * 2]\n")
    snap = world.snapshot()

    def run(engine, faults=()):
        return nw.now(world, out, engine, "run", "s.py", faults=faults, seed=sc["seed"], rate=.05)

    fresh = run(sc["engine"])
    db = nw.dump(world)
    if not out.check(fresh.ok and len(db.trials) == 1 and db.trials[0]["finish"] is not None, "fresh",
                     lambda: "%s: %s %s" % (sc["engine"], fresh.brief(), fresh.err[-1500:])):
        return
    wanted = counts(db, db.trials[0]["id"])
    kinds = list(fresh.kinds)
    for pick in sc["picks"]:
        world.restore(snap)
        where = sc["engine"]
        profile = kinds
        for number, seed in enumerate(pick):
            rng = random.Random(seed)
            early = len(profile) if rng.random() < .25 else min(len(profile), 40 if number else 120)
            fault = c.pick_faults(rng, profile[:early])
            if fault is None:
                continue
            hit = profile[fault["op"]]
            where += ", %s at operation %d (%s %s)" % (fault, fault["op"], hit[0], hit[1][-60:])
            res = run(sc["engine"], [fault])
            out.probe("fault_fired")
            out.nontrivial = True
            out.note(fault["op"], fault["act"], res.brief())
            out.check(res.status in ("exit", "crash"), "no-progress",
                      lambda: "%s: ended as %s\n%s" % (where, res.status, res.err[-1000:]))
            world.clock.skew += 10 ** 9
        judge(sc, world, out, text, wanted, where, run)
    out.signature = [sc["engine"], sc["script"], out.log]


def judge(sc, world, out, text, wanted, where, run):
    engine = sc["next"]
    old = nw.dump(world)
    have = set(t["id"] for t in old.trials)
    if sc["list_first"] and old.exists:
        res = nw.now(world, out, engine, "list")
        out.check(works(res), "list-first", lambda: "%s: now list %s: %s%s" % (
            where, res.brief(), res.out[-300:], res.err[-1200:]))
    res = run(engine)
    db = nw.dump(world)
    new = [t for t in db.trials if t["id"] not in have]
    if not out.check(res.ok and len(new) == 1 and new[0]["finish"] is not None, "next-run", lambda:
                     "%s: the next run ended %s with %r: %s%s" % (where, res.brief(), new, res.out[-300:],
                                                                  res.err[-1500:])):
        return
    trial = new[0]
    got = counts(db, trial["id"])
    out.check(got == wanted, "next-run-differs", lambda: "%s: rows %r, in a fresh directory %r" % (where, got, wanted))
    complete(world, out, engine, db, trial, "next-run-incomplete", where + ", next run")
    for argv in (["list"], ["show", trial["id"], "-m", "-d", "-e", "-a", "-p", "-f"]):
        res = nw.now(world, out, engine, *argv)
        out.check(works(res) and trial["id"] in res.out, "next-" + argv[0], lambda: "%s: now %s %s: %s%s" % (
            where, argv[0], res.brief(), res.out[-300:], res.err[-1200:]))
    world.write("s.py", "print('other')\n")
    res = nw.now(world, out, engine, "restore", trial["id"])
    out.check(works(res) and world.read("s.py") == text.encode(), "next-restore", lambda:
              "%s: now restore %s left %r: %s%s" % (where, res.brief(), world.read("s.py"), res.out[-300:],
                                                    res.err[-1500:]))
