"""How and when partial results are saved never changes the record."""
import random
import re

from . import common as c
from . import nw
from . import programs as g

ID = "T04"
LEVEL = "exploration"
NOTE = ("compares the records of two simulated runs of generated scripts, one saved at the end by the plain engine, one "
        "saved at generated moments; times are left out of the comparison, memory addresses in values are masked")
RUNS = {"quick": 220, "thorough": 9000}
AUDIT = 12
RULE = ("A case is a generated script run twice from the same disk image: once without partial saves with the plain "
        "engine, once with a generated save frequency, clock speed and wall clock jump, content engine (parallel ones "
        "under a seeded schedule) and sometimes transient disk errors while partial results are saved. Compared, table "
        "by table and field by field: activations, evaluations, dependencies, members, file accesses with their "
        "contents, components, blocks, modules and status. Non-trivial: results were saved while the script ran.")
REAL = c.REAL_ALL + ["the generated script"]
STUBS = ["clock", "getrandom", "outcome of faulted system calls", "multiprocessing (parallel engines)"]
ASSUMES = ["scripts do not look at the interpreter's frames, locals, time or memory",
           "values whose text depends on memory addresses are equal up to the addresses"]

ADDRESS = re.compile(r"0x[0-9a-f]{6,}|\d{12,}")
#: text of values that could not be represented
FALLBACK = re.compile("<(dict|list|tuple) object at 0x>$")
#: fields that say when, or which engine, and not what
TIMES = {"checkpoint", "start_checkpoint", "start", "finish", "command", "trial_id", "timestamp", "sequence_key"}
SKIP_ARGUMENTS = {"save_frequency", "call_storage_frequency", "content_engine"}


def generate(rng, index):
    program = g.generate(rng, (1, 6), g.PURE + g.FILES * 2 + g.MODS * 2 + ['expr'] * 20 + g.CALLS,
                         list(g.ENDS) if rng.random() < .4 else ["normal"])
    interval = rng.choice([1, 2, 5, 5, 20, 60])            # readings of the clock between two saves
    return {"program": program, "engine": nw.pick_engine(rng, .4), "interval": interval,
            "save": rng.choice([1, 3, 10]), "jump": rng.choice([0, 0, -10 ** 13, 10 ** 13]),
            "errors": [rng.randrange(10 ** 6) for _ in range(rng.choice([0, 0, 1, 3]))],
            "options": [o for o in [["-d", str(rng.choice([0, 1, 2, 3]))], ["-c", "package"], ["-c", "all"]]
                        if rng.random() < .15],
            "seed": rng.randrange(10 ** 6)}


def simplify(sc):
    for program in g.simplify(sc["program"]):
        yield dict(sc, program=program)
    for errors in c.drop_each(sc["errors"]):
        yield dict(sc, errors=errors)
    if sc["engine"] != "plain":
        yield dict(sc, engine="plain")
    if sc["jump"]:
        yield dict(sc, jump=0)
    for options in c.drop_each(sc["options"]):
        yield dict(sc, options=options)


def execute(sc, env, out):
    world = env.world()
    g.install(world, sc["program"])
    snap = world.snapshot()
    options = [o for pair in sc["options"] for o in pair]
    res = nw.now(world, out, "plain", "run", *(options + ["s.py"]))
    base = record(world, out, "plain", res)
    world.restore(snap)
    # the clock moves so that results are saved after some readings of it
    tick = sc["save"] * 10 ** 6 // sc["interval"] + 1
    many = options + ["-s", str(sc["save"]), "s.py"]
    faults = []
    kw = dict(seed=sc["seed"])

    def run(faults=()):
        world.clock.tick = tick
        world.clock.skew += sc["jump"]
        try:
            return nw.now(world, out, sc["engine"], "run", *many, faults=faults, **kw)
        finally:
            world.clock.tick = 1000
    if sc["errors"]:
        # errors of the relational store while the script runs, none at its end
        profile = run()
        world.restore(snap)
        spots = saving(profile.kinds)
        for pick in sc["errors"]:
            rng = random.Random(pick)
            if spots:
                op = rng.choice(spots)
                faults.append({"op": op, "act": "errno", "param": rng.choice([28, 5]), "until": op + 1})
        faults = faults[:1]
        out.probe("errors_while_saving", len(faults))
    res = run(faults)
    saves = saving(res.kinds)
    out.probe("saved_while_running", 1 if saves else 0)
    mine = record(world, out, sc["engine"], res)
    out.nontrivial = bool(saves) and mine is not None
    if faults and mine is not None and mine["finish"] is None:
        # the error also hit what ends the run: T01
        out.note("unfinished")
        return
    if res.status == "steps":
        # the simulation is too long to be compared
        out.nontrivial = False
        out.note("steps")
        return
    if base is None or mine is None:
        out.check(base is mine, "no-record", lambda: "%s: %s" % (res.brief(), res.err[-1500:]))
        return
    for table in sorted(base):
        one, two = base[table], mine[table]
        if one == two:
            continue
        extra = [r for r in two if r not in one][:2]
        gone = [r for r in one if r not in two][:2]
        out.violate("differs-" + table, "%s, %d rows: %d rows without partial saves; only there %s; only here %s" % (
            sc["engine"], len(two), len(one), gone, extra))
    out.note(sc["engine"], dict((t, len(rows or ())) for t, rows in mine.items()), len(saves))
    out.signature = [sc["program"], sc["engine"], out.log]


def saving(kinds):
    """Operations of transactions while the script runs: between the ones
    that store the definition and the last ones."""
    spots = [i for i, (kind, path, _) in enumerate(kinds) if "db.sqlite-journal" in path and kind == "create"]
    spots = spots[8:-12]
    return [i for i in range(spots[0], spots[-1]) if "db.sqlite" in kinds[i][1]] if len(spots) > 1 else []


def record(world, out, engine, res):
    """The comparable record of the only trial, None without one."""
    db = nw.dump(world)
    if len(db.trials) != 1 or res.status != "exit":
        return None
    trial = db.trials[0]
    idents = sorted(nw.hashes(db, trial["id"]))
    read = c.run(world, out, engine, nw.read_contents, (engine, idents), cpus=1)
    data = read.value or {}
    found = {"finish": trial["finish"] and "set"}
    for table in ("trial", "argument", "module", "code_component", "code_block", "composition", "evaluation",
                  "activation", "dependency", "member", "file_access", "tag"):
        rows = []
        for row in db[table]:
            if table == "argument" and row["name"] in SKIP_ARGUMENTS:
                continue
            item = {}
            for key, value in row.items():
                if key in TIMES or (table == "trial" and key in ("id", "user_id")):
                    continue
                if key in ("code_hash", "content_hash_before", "content_hash_after") and value:
                    value = data.get(value)
                if isinstance(value, str):
                    value = ADDRESS.sub("0x", value)
                    if "'__name__': '__main__'" in value or "'__now_" in value or FALLBACK.match(value):
                        value = "namespace"         # with the collector, its engine and times
                item[key] = value
            if table == "evaluation":
                item["closed"] = row["checkpoint"] is not None and row["checkpoint"] >= 0
            rows.append(sorted(item.items()))
        found[table] = sorted(rows, key=repr)
    return found
