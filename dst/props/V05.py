"""A trial reference selects exactly the trial it names."""
import random
import sqlite3

from . import common as c
from . import hist
from . import nw

ID = "V05"
LEVEL = "exploration"
NOTE = "generated histories, names of tags and references; the commands that take a trial, except vis and the notebook ones"
RUNS = {"quick": 90, "thorough": 3000}
AUDIT = 6
RULE = ("A case is a history of runs and restores (some concurrent, killed or failing), with further tags as shared stores "
        "have them, and 14 references: identifiers, parts of them, numbers, tags, spellings that are equal to a number or "
        "a pattern in SQL, unknown ones, and none; each given to a sampled command, in part while a run is in progress. "
        "What the command prints or does is compared with the same command given the identifier of the only trial that "
        "the reference names by the rules, or must be a refusal; the store is equal afterwards. Non-trivial: three trials.")
REAL = c.REAL_ALL + ["the scripts"]
STUBS = ["clock", "getrandom", "outcome of faulted system calls", "multiprocessing (parallel engines)"]
ASSUMES = ["completed writes survive a crash (no power loss)"]

COMMANDS = ["show", "show", "export", "prov", "dataflow", "ast", "evaluation", "diff1", "diff2", "restore", "restore-file"]
KINDS = ["id", "id", "seq", "seq", "tag", "tag", "tag", "none", "none", "part", "odd", "unknown"]


def generate(rng, index):
    steps = hist.steps(rng, rng.choice([3, 5, 8]), both=.1, fault=.15, restore=.15)
    if rng.random() < .2:
        steps[5:7] = hist.burst(rng)
    return {"steps": steps,
            "tags": [[rng.choice(["v1", "1.1.1", "best", "2", "1", "12", "a b", "1.1"]), rng.randrange(100), rng.choice(["AUTO", "USER"])]
                     for _ in range(rng.choice([0, 0, 1, 2, 4]))],
            "asks": [[rng.choice(COMMANDS), rng.choice(KINDS), rng.randrange(10 ** 6)] for _ in range(14)],
            "engine": nw.pick_engine(rng, .1), "seed": rng.randrange(10 ** 6)}


def simplify(sc):
    for rows in hist.simplify(sc["steps"]):
        yield dict(sc, steps=rows)
    for key in ("asks", "tags"):
        for fewer in c.drop_each(sc[key]):
            yield dict(sc, **{key: fewer})
    if sc["engine"] != "plain":
        yield dict(sc, engine="plain")


def odd(rng, trial, db):
    """References that only a loose comparison takes for one of the trial."""
    number = str(trial["sequence_key"])
    tag = ([t["name"] for t in db["tag"] if t["trial_id"] == trial["id"]] + ["1.1.1"])[0]
    return rng.choice(["0" + number, number + ".0", " " + number, "+" + number, number + "e0", number + " ", "-" + number,
                       tag + ".0", tag[:-1], "%", "_" * len(trial["id"]), trial["id"] + "0", trial["id"].upper(),
                       trial["script"], trial["status"], "0", "1x", str(10 ** 30), "' or 1=1 --", "tag", "None", tag + " "])


def named(db, ref):
    """The ids of the trials that a reference names."""
    if any(t["id"] == ref for t in db.trials):
        return [ref]
    found = set(t["trial_id"] for t in db["tag"] if t["name"] == ref)
    found |= set(t["id"] for t in db.trials if str(t["sequence_key"]) == ref)
    return sorted(found)


def argv_of(command, ref, other):
    """Command line; ref may be None."""
    some = [] if ref is None else [ref]
    if command == "evaluation":
        return ["evaluation"] + (["-t", ref] if ref is not None else [])
    if command == "diff1":
        return ["diff", ref, other] if ref is not None else None
    if command == "diff2":
        return ["diff", other, ref] if ref is not None else None
    if command == "restore":
        return ["restore"] + some
    if command == "restore-file":
        return ["restore"] + some + ["-f", "s.py", "-t", "copy"] if ref is not None else None
    return [command] + some


def store(world):
    db = nw.dump(world)
    return dict((name, rows) for name, rows in db.tables.items() if name not in ("graph_cache",))


def execute(sc, env, out):
    world = env.world()
    db = hist.play(sc, world, out, lambda *a: None)
    if not db.trials:
        return
    con = sqlite3.connect(world.path(".noworkflow/db.sqlite"))
    for name, which, kind in sc["tags"]:
        trial = db.trials[which % len(db.trials)]
        con.execute("insert into tag(trial_id, type, name, timestamp) values (?, ?, ?, '2026-01-01 00:00:00.000000')",
                    (trial["id"], kind, name))
    con.commit()
    con.close()
    db = nw.dump(world)
    snap = world.snapshot()
    for number, (command, kind, seed) in enumerate(sc["asks"]):
        rng = random.Random(seed)
        trial, other = rng.choice(db.trials), rng.choice(db.trials)["id"]
        tags = sorted(t["name"] for t in db["tag"])
        ref = {"id": trial["id"], "seq": str(trial["sequence_key"]), "tag": rng.choice(tags) if tags else "1.1.1", "none": None,
               "part": trial["id"][:rng.choice([1, 4, 8, 13, 35])], "odd": odd(rng, trial, db), "unknown": rng.choice(
                   ["9.9.9", "99999", "none", "d3b07384-d9a0-4c9b-8f6a-1b2c3d4e5f60"])}[kind]
        argv = argv_of(command, ref, other)
        if argv is None:
            continue
        if ref is None:
            last = max(t["start"] for t in db.trials)
            found = [t["id"] for t in db.trials if t["start"] == last][:1]
        else:
            found = named(db, ref)
        ask(sc, world, out, argv, command, ref, found, other, number, snap)
    out.probe("trials", len(db.trials))
    out.nontrivial = len(db.trials) >= 3
    out.signature = [hist.show(sc), sc["tags"], [a[:2] for a in sc["asks"]]]


def ask(sc, world, out, argv, command, ref, found, other, number, snap):
    engine = sc["engine"]
    world.restore(snap)
    before, files = store(world), world.files()
    res = nw.now(world, out, engine, *argv, seed=sc["seed"] + number)
    after, left = store(world), world.files()
    what = "now %s (%s)" % (" ".join(map(repr, argv)), res.brief())
    if len(found) != 1:
        out.probe("ambiguous" if found else "refused")
        text = res.out + res.err
        refused = (res.status == "exit" and (res.code != 0 or "not found" in text or "ambiguous" in text.lower())
                   and "Traceback" not in text)
        out.check(refused, "accepted" if not found else "ambiguous",
                  lambda: "%s names %s but was not refused: %s" % (what, [f[:8] for f in found] or "no trial", text[-300:]))
        out.check(after == before and left == files, "refusal-changes", lambda: "%s changed something: %s" % (what, [
            k for k in set(left) | set(files) if left.get(k) != files.get(k)] + [k for k in after if after[k] != before.get(k)]))
        return
    out.probe("selected-" + command)
    world.restore(snap)
    same = nw.now(world, out, engine, *argv_of(command, found[0], other), seed=sc["seed"] + number)
    again, kept = store(world), world.files()
    text, want = scrub(res.out), scrub(same.out)
    out.check(text == want and (res.status, res.code) == (same.status, same.code), "selects", lambda: (
        "%s differs from the one with %s (%s): %s" % (what, found[0], same.brief(), first_difference(text, want))))
    if command.startswith("restore"):
        out.check(left == kept, "restores", lambda: "%s restored other files than with %s: %s" % (what, found[0], [
            k for k in set(left) | set(kept) if left.get(k) != kept.get(k)]))
        heads = [[(h["script"], h["trial_id"]) for h in s.get("head", [])] for s in (after, again)]
        out.check(heads[0] == heads[1], "heads", lambda: "%s left the heads %s, not %s" % ((what,) + tuple(heads)))
    else:
        out.check(after == before and left == files, "changes", lambda: "%s changed the store or the folder" % what)
    if command == "show" and same.status == "exit" and same.code == 0:
        out.check(found[0] in res.out, "shows", lambda: "%s does not show %s: %s" % (what, found[0], res.out[:300]))


def scrub(text):
    import re
    return re.sub(r"Backup Trial \S+", "Backup Trial", text)


def first_difference(one, two):
    a, b = one.splitlines(), two.splitlines()
    for x, y in zip(a, b):
        if x != y:
            return "%r, not %r" % (x[:200], y[:200])
    return "%d lines, not %d; %r" % (len(a), len(b), (a or b)[-1:])
