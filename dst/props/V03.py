"""Each trial's parent is the trial its code was based on."""
from . import common as c
from . import hist
from . import nw

ID = "V03"
LEVEL = "exploration"
NOTE = "generated histories of up to 12 runs and restores of three scripts; the wall clock never goes back"
RUNS = {"quick": 110, "thorough": 4000}
AUDIT = 6
RULE = ("A case is a history of edits, runs (some concurrent, some that fail), and restores by id, tag or number of three "
        "scripts in one store, in part killed or with a disk error at a sampled operation. A model keeps, per script, which "
        "trial was last restored or started. Every trial that appears must have the parent the model allows (a killed "
        "restore allows the ones before and after it; concurrent runs any that one order allows), parents never change, "
        "and the chains end without a cycle. Non-trivial: three trials.")
REAL = c.REAL_ALL + ["the scripts"]
STUBS = ["clock", "getrandom", "outcome of faulted system calls", "multiprocessing (parallel engines)"]
ASSUMES = ["completed writes survive a crash (no power loss)", "the wall clock never goes back"]


def generate(rng, index):
    if index % 5 == 4:
        return {"steps": hist.steps(rng, 0) + hist.taken_up(rng), "engine": "plain", "seed": rng.randrange(10 ** 6)}
    return {"steps": hist.steps(rng, rng.choice([3, 5, 8, 12]), both=.07, fault=.25, restore=.35),
            "engine": nw.pick_engine(rng, .1), "seed": rng.randrange(10 ** 6)}


def simplify(sc):
    for rows in hist.simplify(sc["steps"]):
        yield dict(sc, steps=rows)
    if sc["engine"] != "plain":
        yield dict(sc, engine="plain")


def execute(sc, env, out):
    world = env.world()
    base = {}                  # script -> set of the ids (or None) that its next trial may have as parent
    known = {}                 # id -> parent

    def see(step, before, after, res):
        what = "step %d %s %s%s (%s)" % (step["number"], step["do"], step.get("script", step.get("ref", "")),
                                         ", " + step["where"] if "where" in step else "", res.brief())
        new = [t for t in after.trials if t["id"] not in known]
        left = list(new)
        for trial in new:
            script = trial["script"]
            allowed = set(base.get(script, {None}))
            if step["do"] == "both":         # the ones that may have started before
                allowed |= set(t["id"] for t in new if t["script"] == script and t["id"] != trial["id"])
            out.check(trial["parent_id"] in allowed, "parent", lambda: "%s: trial %s of %s has parent %s, not %s; %s" % (
                what, short(trial["id"]), script, short(trial["parent_id"]), [short(a) for a in allowed],
                [(short(t["id"]), t["script"], t["status"], short(t["parent_id"])) for t in after.trials]))
            known[trial["id"]] = trial["parent_id"]
        for trial in new:
            mine = [t["id"] for t in new if t["script"] == trial["script"]]
            base[trial["script"]] = set(mine)
        if step["do"] == "restore":
            script = step["trial"]["script"]
            worked = res.status == "exit" and res.code == 0 and "where" not in step
            if worked and "was interrupted before" in res.out:
                pass
            elif worked:
                base[script] = {step["trial"]["id"]}
            else:
                base[script] = set(base.get(script, {None})) | {step["trial"]["id"]} | set(
                    t["id"] for t in left if t["script"] == script) | old_base.get(script, set())
        old_base.clear()
        old_base.update((k, set(v)) for k, v in base.items())
        for trial in after.trials:
            out.check(known[trial["id"]] == trial["parent_id"], "parent-changed", lambda: "%s: the parent of %s became %s" % (
                what, short(trial["id"]), short(trial["parent_id"])))
        for trial in before.trials:
            out.check(any(t["id"] == trial["id"] for t in after.trials), "lost", lambda: "%s: %s is gone" % (
                what, short(trial["id"])))
    old_base = {}
    hist.play(sc, world, out, see)
    for start in known:
        seen, ident = set(), start
        while ident is not None and ident not in seen:
            seen.add(ident)
            ident = known.get(ident)
        out.check(ident is None, "cycle", lambda: "the parents of %s have a cycle" % short(start))
        out.check(all(known[i] is None or known[i] in known for i in seen if i in known), "dangling",
                  lambda: "a parent of %s does not exist" % short(start))
    out.probe("trials", len(known))
    out.nontrivial = len(known) >= 3
    out.note(sorted((k, v) for k, v in known.items()))
    out.signature = [hist.show(sc), sorted(s.get("hit") or 0 for s in sc["steps"])]


def short(ident):
    return ident and ident[:8]
