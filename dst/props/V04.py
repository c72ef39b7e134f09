"""Automatic version tags are unique and follow the version rules."""
import itertools

from . import common as c
from . import hist
from . import nw

ID = "V04"
LEVEL = "exploration"
NOTE = "generated histories of up to 12 runs and restores of three scripts, one to three of them concurrent"
RUNS = {"quick": 110, "thorough": 4000}
AUDIT = 6
RULE = ("A case is a history of edits, runs (some concurrent, some that fail), and restores of three scripts in one store, "
        "in part killed or with a disk error at a sampled operation. Every trial that finishes has one automatic tag, equal "
        "to the one a reference computes by the version rules from the tags that were there, for concurrent runs in some "
        "order; tags never change and no two trials share one. Non-trivial: three tags.")
REAL = c.REAL_ALL + ["the scripts"]
STUBS = ["clock", "getrandom", "outcome of faulted system calls", "multiprocessing (parallel engines)"]
ASSUMES = ["completed writes survive a crash (no power loss)"]


def generate(rng, index):
    steps = hist.steps(rng, rng.choice([3, 6, 9, 12]), both=.2, fault=.2, restore=.15)
    if rng.random() < .12:
        steps[5:7] = hist.burst(rng)
    return {"steps": steps,
            "engine": nw.pick_engine(rng, .1), "seed": rng.randrange(10 ** 6)}


def simplify(sc):
    for rows in hist.simplify(sc["steps"]):
        yield dict(sc, steps=rows)
    if sc["engine"] != "plain":
        yield dict(sc, engine="plain")


def rule(tags, content, command):
    """The next version; tags: [(content, command, version)]."""
    same = [v for a, b, v in tags if a == content and b == command]
    if same:
        one, two, three = max(same)
        return one, two, three + 1
    same = [v for a, _, v in tags if a == content]
    if same:
        one, two, _ = max(same)
        return one, two + 1, 1
    return (max(v for _, _, v in tags)[0] + 1, 1, 1) if tags else (1, 1, 1)


def execute(sc, env, out):
    world = env.world()

    def facts(db, trial):
        blocks = dict((b["id"], b["code_hash"]) for b in db.of("code_block", trial["id"]))
        return blocks.get(trial["main_id"]), trial["command"]

    def tags_of(db):
        trials = dict((t["id"], t) for t in db.trials)
        return [(t["trial_id"], tuple(map(int, t["name"].split(".")))) + facts(db, trials[t["trial_id"]])
                for t in db["tag"] if t["type"] == "AUTO"]

    def see(step, before, after, res):
        what = "step %d %s %s%s (%s)" % (step["number"], step["do"], step.get("script", step.get("ref", "")),
                                         ", " + step["where"] if "where" in step else "", res.brief())
        old, now = tags_of(before), tags_of(after)
        out.check(sorted(t[:2] for t in old) == sorted(t[:2] for t in now if t[0] in set(x["id"] for x in before.trials)),
                  "changed", lambda: "%s: tags of earlier trials %s became %s" % (what, old, now))
        versions = [t[1] for t in now]
        out.check(len(set(versions)) == len(versions), "shared", lambda: "%s: %s" % (
            what, sorted(v for v in versions if versions.count(v) > 1)))
        known = set(t["id"] for t in before.trials)
        fresh = [t for t in now if t[0] not in known]
        for trial in after.trials:
            if trial["id"] in known:
                continue
            mine = [t for t in fresh if t[0] == trial["id"]]
            if trial["finish"] is not None:
                out.check(len(mine) == 1, "no-tag", lambda: "%s: the finished trial has tags %s\n%s" % (
                    what, mine, res.err[-600:]))
            else:
                out.check(len(mine) <= 1, "no-tag", lambda: "%s: tags %s" % (what, mine))
        if step["do"] == "restore":
            return
        base = [(t[2], t[3], t[1]) for t in old]
        found = dict((t[0], t[1]) for t in fresh)
        for order in itertools.permutations(fresh):
            tags, good = list(base), True
            for ident, version, content, command in order:
                good = good and rule(tags, content, command) == version
                tags.append((content, command, version))
            if good:
                break
        else:
            out.violate("rule", "%s: new versions %s; the earlier are %s" % (
                what, [(t[1], (t[2] or "")[:6], t[3]) for t in fresh], [(v, (a or "")[:6], b) for a, b, v in base]))
        out.probe("tags", len(found))
    last = hist.play(sc, world, out, see)
    out.nontrivial = len(last["tag"]) >= 3
    out.note(sorted(t["name"] for t in last["tag"]))
    out.signature = [hist.show(sc), sorted(t["name"] for t in last["tag"])]
