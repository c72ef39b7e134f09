"""Restoring never loses local work."""
import random

from . import common as c
from . import nw
from . import V01

ID = "V02"
LEVEL = "fault_injection"
NOTE = "generated projects and histories as in V01; one or two faults in one restore of the history"
RUNS = {"quick": 330, "thorough": 8000}
AUDIT = 8
RULE = ("A case is a generated history of edits, removals, runs and restores, ended by local edits and a restore of a trial "
        "or of a single file, clean or killed or with a disk error (ENOSPC, EIO, EACCES, EMFILE, short write) at a sampled "
        "operation. Afterwards each content that a file had before is in that file or in the store. After a clean restore "
        "each replaced content that no trial had is recorded in a backup trial, and restoring that backup puts every "
        "replaced file back. After a fault, repeating the restore works. Non-trivial: the last restore replaced or "
        "removed a file, or had a fault.")
REAL = V01.REAL
STUBS = V01.STUBS
ASSUMES = ["completed writes survive a crash (no power loss)"]


def generate(rng, index):
    steps = V01.history(rng, rng.choice([0, 1, 3, 6, 9]))
    for row in steps:
        if "hit" in row:
            row["hit"] = None
    for _ in range(rng.choice([1, 2, 3])):
        name = rng.choice(["s.py", "s.py"] + V01.DATA + V01.MODULES)
        if name == "s.py" and rng.random() < .5:
            steps.append({"do": "edit", "file": name, "spec": None, "data": "local = %d\n" % rng.randrange(99)})
        elif rng.random() < .15:
            steps.append({"do": "remove", "file": name})
        else:
            steps.append(V01.edit(rng, name))
    last = {"ref": rng.randrange(100), "how": rng.choice(["id", "tag", "seq"]),
            "opts": rng.choice([[], [], [], ["-s"], ["-l"], ["-a"]]), "file": None}
    if rng.random() < .25:
        last.update(opts=[], file=rng.choice(["s.py"] + V01.DATA + V01.MODULES), target=rng.choice([None, "a.txt", "mod.py"]))
    return {"layout": rng.choice(V01.LAYOUTS), "name": rng.choice([None, None, None, "other"]), "steps": steps,
            "last": last, "hits": [rng.randrange(10 ** 6) for _ in range(rng.choice([0, 0, 1, 1, 1, 2]))],
            "engine": nw.pick_engine(rng, .2), "seed": rng.randrange(10 ** 6)}


def simplify(sc):
    for one in V01.simplify(sc):
        yield one
    for fewer in c.drop_each(sc["hits"]):
        yield dict(sc, hits=fewer)
    if sc["last"]["opts"]:
        yield dict(sc, last=dict(sc["last"], opts=[]))


class Play(V01.Play):
    def step(self, row):
        if row["do"] == "edit" and row.get("spec") is None and row["file"] == "s.py":
            self.world.clock.skew += 10 ** 9
            self.world.write(self.prefix + "s.py", row["data"].encode())
            return
        super(Play, self).step(row)


def execute(sc, env, out):
    world = env.world()
    play = Play(sc, world, out)
    play.specs = {}
    for row in sc["steps"]:
        play.step(row)
    last = sc["last"]
    trial, ref = play.pick(last)
    if trial is None:
        return
    argv = [ref] + last["opts"]
    if last["file"]:
        argv += ["-f", last["file"]] + (["-t", play.prefix + last["target"]] if last["target"] and
                                        sc["layout"] in ("root", "below-dir", "dir-dot") else
                                        ["-t", last["target"]] if last["target"] else [])
    before, db = everything(play), play.dump()
    stored = hashes(db)
    faults = []
    snap = world.snapshot()
    world.clock.skew += 10 ** 9
    res = play.now("restore", *argv)
    if sc["hits"]:
        kinds = res.kinds
        world.restore(snap)
        world.clock.skew += 10 ** 9
        for hit in sc["hits"]:
            rng = random.Random(hit)
            where = rng.random()
            fault = c.pick_faults(rng, kinds, want=(lambda k: ".noworkflow" not in k[1]) if where < .35 else (
                lambda k: "content" in k[1]) if where < .6 else None)
            if fault:
                faults.append(fault)
        play.count -= 1
        res = play.now("restore", *argv, faults=faults)
    after = everything(play)
    what = "restore %s%s: %s %s" % (argv, " with %s" % faults if faults else "", res.brief(), (res.out + res.err)[-250:])
    gone = dict((name, data) for name, data in before.items() if after.get(name) != data)
    wanted = sorted(set(play.hash(data) for data in gone.values()))
    got = c.run(world, out, sc["engine"], nw.read_contents, (sc["engine"], wanted),
                cwd=play.store).value or {} if wanted else {}
    for name, data in sorted(gone.items()):
        have = got.get(play.hash(data))
        out.check(have == data, "lost", lambda: "%s: %s had %s, which is nowhere: the file holds %s, the store %r" % (
            what, name, V01.brief(data), V01.brief(after.get(name)), have))
    for name in set(after) - set(before):
        if not last["file"]:
            kept = play.kept[trial["id"]]["files"].get(name[len(play.prefix):])
            out.check(kept is not None or faults, "new-file", lambda: "%s: left %s" % (what, name))
    out.probe("replaced", len(gone))
    if faults:
        out.probe("faulted")
        if res.fired() if hasattr(res, "fired") else True:
            out.probe("fired")
        if not last["file"]:
            again(sc, play, out, trial, argv, last, what)
    elif not last["file"]:
        backups(play, out, before, after, gone, stored, trial, what)
    out.nontrivial = bool(gone or faults)
    out.note(what, sorted((k, c.enc(v)) for k, v in after.items()))
    out.signature = [sc["layout"], sc["steps"][-1].get("file"), last, sc["hits"], len(sc["steps"])]


def everything(play):
    return play.world.files(skip=(".noworkflow", "__pycache__"))


def hashes(db):
    """Every (path, hash) and hash that a trial has."""
    return set(h for table, columns in (("code_block", ["code_hash"]),
                                        ("file_access", ["content_hash_before", "content_hash_after"]))
               for r in db[table] for h in [r[k] for k in columns] if h)


def backups(play, out, before, after, gone, stored, trial, what):
    """After a clean restore: what no trial had is in a backup that can be restored."""
    fresh = dict((n, d) for n, d in gone.items() if play.hash(d) not in stored)
    if not fresh:
        return
    db = play.dump()
    made = [t for t in db.trials if t["status"] == "backup"]
    if not out.check(made, "no-backup", lambda: "%s: replaced %s, which no trial had, without backup" % (what, sorted(fresh))):
        return
    backup = made[-1]
    blocks = dict((b["id"], b["code_hash"]) for b in db.of("code_block", backup["id"]))
    have = set(blocks.values()) | set(r["content_hash_before"] for r in db.of("file_access", backup["id"]))
    missing = [n for n, d in fresh.items() if play.hash(d) not in have]
    if not out.check(not missing, "not-in-backup", lambda: "%s: the backup does not have %s" % (what, missing)):
        return
    out.probe("backups")
    play.world.clock.skew += 10 ** 9
    res = play.now("restore", backup["id"])
    now = everything(play)
    wrong = [n for n, d in fresh.items() if now.get(n) != d]
    out.check(not wrong, "backup-restore", lambda: "%s; then restore %s (%s %s) did not bring back %s: it holds %s" % (
        what, backup["id"][:8], res.brief(), (res.out + res.err)[-250:], wrong[:1], V01.brief(now.get(wrong[0]))))


def again(sc, play, out, trial, argv, last, what):
    """The same restore after the fault brings every file."""
    play.world.clock.skew += 10 ** 9
    res = play.now("restore", trial["id"], *last["opts"])
    skip = {"-s": "script", "-l": "module", "-a": "access"}
    skipped = [skip[o] for o in last["opts"]]
    now = play.files()
    wrong = [n for n, (kind, data) in play.kept[trial["id"]]["files"].items() if kind not in skipped and now.get(n) != data]
    out.check(not wrong, "repeat", lambda: "%s; then again (%s %s) left %s: %s" % (
        what, res.brief(), (res.out + res.err)[-250:], wrong[0], V01.brief(now.get(wrong[0]))))
