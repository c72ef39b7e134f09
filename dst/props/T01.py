"""An interrupted run leaves earlier history intact and itself unfinished."""
import random
import re

from . import common as c
from . import nw
from . import programs as g

ID = "T01"
LEVEL = "fault_enumeration"
NOTE = ("kills before, after and inside, and errors at, sampled mutating system calls of whole `now run` commands; no "
        "loss of completed writes (no power failure); -b is only used after a complete trial with modules")
RUNS = {"quick": 30, "thorough": 4000}
AUDIT = 6
RULE = ("A case is a store with up to two complete trials, one more run of a generated script profiled without fault, "
        "then repeated from the same disk image with one fault (kill, torn or short write, ENOSPC, EIO, EACCES, EMFILE, "
        "full disk) at each of several sampled disk operations. After each: the rows and contents of earlier trials "
        "are as they were; the trial of the run is absent, without finish time, or complete, and is listed so; a "
        "later run records a complete trial; sampled other commands work. Non-trivial: a fault fired.")
REAL = c.REAL_ALL + ["the generated script"]
STUBS = ["clock", "getrandom", "outcome of faulted system calls", "multiprocessing (parallel engines)"]
ASSUMES = ["completed writes survive a crash (no power loss)"]

#: commands that work on every store with a complete trial, {0}: its id
COMMANDS = [["show"], ["show", "-m", "-d", "-e", "-a", "-p", "-f"], ["show", "{0}", "-a", "-d"], ["history"],
            ["diff", "{0}", "{1}"], ["diff", "{0}", "{1}", "-m", "-e", "-f"], ["export"], ["export", "{0}"],
            ["dataflow", "{0}"], ["dataflow"], ["prov", "{0}"], ["prov"], ["gc"], ["evaluation"], ["ast", "{0}"],
            ["restore", "{0}"], ["restore", "-l", "{0}"], ["show", "{1}", "-m", "-d", "-e", "-a", "-p", "-f"]]
#: what a command prints instead of its result
BAD = ["invalid noWorkflow database", "not found", "Traceback", "Not able to"]


def generate(rng, index):
    def run(small=False):
        return {"program": g.generate(rng, (1, 2) if small else (1, 3), g.PURE + g.FILES * 3 + g.MODS * 2,
                                      list(g.ENDS) if rng.random() < .25 else ["normal"]),
                "options": nw.run_options(rng)}
    return {"base": [run(True) for _ in range(rng.choice([0, 1, 1, 1, 2]))], "run": run(), "later": run(True),
            "same": rng.random() < .4, "engine": nw.pick_engine(rng), "seed": rng.randrange(10 ** 6),
            "bypass": rng.random() < .15, "later_bypass": rng.random() < .15,
            "tick": rng.choice([1000, 10 ** 5, 10 ** 6]),
            "picks": [rng.randrange(10 ** 6) for _ in range(4)]}


def simplify(sc):
    for key in ("picks", "base"):
        for items in c.drop_each(sc[key]):
            if items or key == "base":
                yield dict(sc, **{key: items})
    for program in g.simplify(sc["run"]["program"]):
        yield dict(sc, run=dict(sc["run"], program=program))
    for options in nw.drop_options(sc["run"]["options"]):
        yield dict(sc, run=dict(sc["run"], options=options))
    if sc["engine"] != "plain":
        yield dict(sc, engine="plain")
    for key, plain in (("bypass", False), ("later_bypass", False), ("tick", 1000)):
        if sc[key] != plain:
            yield dict(sc, **{key: plain})


def execute(sc, env, out):
    world = env.world()
    engine = sc["engine"]
    kw = dict(seed=sc["seed"], rate=.05)

    def run(spec, faults=(), bypass=False):
        g.install(world, spec["program"])
        world.clock.tick = sc["tick"]
        try:
            return nw.now(world, out, engine, "run", *(["-b"] * bypass + spec["options"] + ["s.py"]), faults=faults,
                          **kw)
        finally:
            world.clock.tick = 1000

    for spec in sc["base"]:
        res = run(spec)
        if res.status != "exit":
            out.note("base", res.brief())
            return
    before = nw.dump(world)
    old = dict((t["id"], before.facts(t["id"])) for t in before.trials)
    want = contents(world, out, engine, before, old)
    bypass = sc["bypass"] and any(t["modules_inherited_from_trial_id"] is None and t["finish"] for t in before.trials)
    snap = world.snapshot()
    spec = sc["base"][0] if sc["same"] and sc["base"] else sc["run"]
    res = run(spec, bypass=bypass)
    if res.status != "exit":
        out.note("profile", res.brief())
        return
    kinds = list(res.kinds)

    def control(argv, later):
        """The same command where the run was not interrupted."""
        world.restore(snap)
        run(spec, bypass=bypass)
        if later:
            world.clock.skew += 10 ** 9
            run(sc["later"])
        trials = [t["id"] for t in nw.dump(world).trials]
        named = dict(("<%d>" % i, t) for i, t in enumerate(trials))
        named["<mine>"], named["<later>"] = trials[len(old)], trials[-1]
        return nw.now(world, out, engine, *[named.get(a, a) for a in argv])

    for pick in sc["picks"]:
        rng = random.Random(pick)
        like = rng.random()
        fault = c.pick_faults(rng, kinds, want=(lambda k: ".noworkflow" in k[1]) if like < .5 else
                              (lambda k: "db.sqlite" in k[1] and k[0] != "sync") if like < .8 else None)
        if fault is None:
            continue
        world.restore(snap)
        res = run(spec, [fault], bypass)
        hit = kinds[fault["op"]]
        where = "%s, %s at operation %d of %d (%s %s)" % (engine, fault, fault["op"], len(kinds), hit[0], hit[1][-60:])
        out.probe("fault_fired")
        out.nontrivial = True
        out.note(fault["op"], fault["act"], res.brief())
        if not out.check(res.status in ("exit", "crash"), "no-progress",
                         lambda: "%s: ended as %s\n%s" % (where, res.status, res.err[-1000:])):
            continue
        judge(sc, rng, world, out, engine, res, old, want, where, run, control)
    out.signature = [engine, out.log]


def contents(world, out, engine, db, trials):
    idents = sorted(set(i for t in trials for i in nw.hashes(db, t)))
    if not idents:
        return {}
    res = c.run(world, out, engine, nw.read_contents, (engine, idents), cpus=1)
    return res.value if res.status == "exit" and res.value is not None else {"reader": (res.brief(), res.err[-500:])}


def judge(sc, rng, world, out, engine, res, old, want, where, run, control):
    # 1. earlier trials
    db = nw.dump(world)
    for ident, facts in sorted(old.items()):
        text = nw.diff_facts(facts, db.facts(ident))
        out.check(text is None, "history-changed", lambda: "%s: earlier trial: %s" % (where, text))
    now = contents(world, out, engine, db, old)
    out.check(now == want, "history-contents", lambda: "%s: contents of earlier trials became %s" % (
        where, [(k, now.get(k), want.get(k)) for k in sorted(set(now) | set(want)) if now.get(k) != want.get(k)][:2]))
    mine = [t for t in db.trials if t["id"] not in old]
    out.check(len(mine) <= 1, "several", lambda: "%s: %r" % (where, mine))
    # 2. the trial of the run
    for trial in mine:
        if trial["finish"] is not None or trial["status"] in ("finished", "unfinished"):
            out.probe("finished_anyway")
            complete(world, out, engine, db, trial, "half-finished", where)
        else:
            out.probe("left_unfinished")
    if not mine:
        out.probe("left_absent")
    # 3. other commands, then a later run, then other commands
    letters = listing(world, out, engine, db, where) if db["trial"] else {}
    for trial in mine:
        if trial["finish"] is None and letters is not None:
            out.check(letters.get(trial["id"]) == "f", "listed-finished",
                      lambda: "%s: listed as [%s]" % (where, letters.get(trial["id"])))
    names = dict((t["id"], i) for i, t in enumerate(t for t in db.trials if t["id"] in old))
    names.update((t["id"], "mine") for t in mine)
    some(world, out, engine, names, [t["id"] for t in db.trials if t["finish"]], rng, where, 1, control)
    world.clock.skew += 10 ** 9
    usable = any(t["modules_inherited_from_trial_id"] is None and t["finish"] for t in db.trials)
    last = run(sc["later"], bypass=sc["later_bypass"] and usable)
    if not out.check(last.status == "exit", "later-run", lambda: "%s: the next run ended %s: %s" % (
            where, last.brief(), last.err[-1500:])):
        return
    have = set(t["id"] for t in db.trials)
    db = nw.dump(world)
    new = [t for t in db.trials if t["id"] not in have]
    if out.check(len(new) == 1 and new[0]["finish"] is not None, "later-run-missing",
                 lambda: "%s: the next run (%s) recorded %r\n%s%s" % (where, last.brief(), new, last.out[-700:],
                                                                     last.err[-700:])):
        complete(world, out, engine, db, new[0], "later-run-incomplete", where + ", the next run")
        listing(world, out, engine, db, where)
        names[new[0]["id"]] = "later"
        some(world, out, engine, names, [t["id"] for t in db.trials if t["finish"]], rng, where, 2, control)


def complete(world, out, engine, db, trial, key, where):
    """Everything a finished trial needs is there."""
    for kind, text in nw.broken(db, trial):
        out.violate(key, "%s: %s %s" % (where, kind, text[:600]))
        return
    names = [t for t in db["tag"] if t["trial_id"] == trial["id"] and t["type"] == "AUTO"]
    out.check(len(names) == 1, key, lambda: "%s: tags %r" % (where, names))
    hashes = nw.hashes(db, trial["id"])
    data = contents(world, out, engine, db, [trial["id"]])
    for ident in sorted(hashes):
        if not out.check(isinstance(data.get(ident), bytes), key, lambda: "%s: content of %s reads %r" % (
                where, hashes[ident], data.get(ident, data))):
            return
    arguments = [r for r in db["argument"] if r["trial_id"] == trial["id"]]
    environment = [r for r in db["environment_attr"] if r["trial_id"] == trial["id"]]
    out.check(len(arguments) > 5 and len(environment) > 5, key, lambda: "%s: %d arguments, %d environment" % (
        where, len(arguments), len(environment)))
    out.check(trial["status"] == "unfinished" or any(r["trial_id"] == trial["id"] and r["activation_id"] == 0 for r in db["evaluation"]), key,
              lambda: "%s: no evaluation" % where)


def listing(world, out, engine, db, where):
    """{id: letter} that `now list` shows."""
    res = nw.now(world, out, engine, "list")
    if not out.check(res.ok and not any(b in res.out + res.err for b in BAD), "list-fails",
                     lambda: "%s: now list %s: %s%s" % (where, res.brief(), res.out[-300:], res.err[-1200:])):
        return None
    letters = dict((i, l) for l, i in re.findall(r"^  \[(.)\]Trial (\S+): ", res.out, re.M))
    out.check(sorted(letters) == sorted(t["id"] for t in db.trials), "list-differs",
              lambda: "%s: now list shows %r" % (where, res.out[-1500:]))
    return letters


def works(res):
    return res.ok and not any(b in res.out + res.err for b in BAD)


def some(world, out, engine, names, done, rng, where, count, control):
    """Sampled commands on complete trials, or without arguments."""
    if not done:
        return
    snap = world.snapshot()
    mine = [i for i, name in names.items() if name == "mine"]
    for template in rng.sample(COMMANDS, count):
        pair = [rng.choice(done), rng.choice(done)]
        if template[0] == "show" and mine:
            pair[1] = mine[0]                       # an interrupted trial can be looked at
        argv = [a.format(*pair) for a in template]
        res = nw.now(world, out, engine, *argv)
        if works(res):
            continue
        # is it the script, and not the interruption?
        here = world.snapshot()
        again = control([a.format(*["<%s>" % names[i] for i in pair]) for a in template], "later" in names.values())
        world.restore(here)
        if not works(again):
            out.note("also without fault", argv[0])
            continue
        out.violate("command-" + argv[0], "%s: now %s %s: %s%s" % (where, " ".join(argv), res.brief(),
                                                                  res.out[-300:], res.err[-1500:]))
    world.restore(snap)
