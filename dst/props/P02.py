"""Sharing a trial copies every field of it exactly."""
import random
import re

from . import common as c
from . import nw
from . import programs as g
from . import share

ID = "P02"
LEVEL = "exploration"
NOTE = "four machines, up to 8 trials of generated scripts, up to 6 transfers each way and any path between them"
RUNS = {"quick": 40, "thorough": 2500}
AUDIT = 6
RULE = ("A case is four machines with stores of the same kind where generated scripts run, with all ways to run them "
        "(depth, component granularity, bypassed modules, names, arguments, failing ends, restores in between), and a path "
        "of pushes, pulls and imports between them, some with requests that are delivered twice, late or first answered "
        "with 503. Each finished trial on each machine is equal, in every row of every table, to what it was where it "
        "ran, with all contents; then sampled queries (show, export, dataflow, prov, evaluation, ast, diff) answer the "
        "same about it on its own machine and on one that received it, except for what the receiver assigns (tags and "
        "numbers). Non-trivial: a trial was received and asked for.")
REAL = c.REAL_ALL + ["the scripts", "requests down to its transport", "Flask application", "push, pull, import", "git"]
STUBS = ["network", "WSGI server loop", "clock", "getrandom", "host and user name", "multiprocessing (git stores)"]
ASSUMES = ["all stores are of the same kind (plain or git): hashes differ between kinds"]
ARGS = [[], [], ["a"], ["b", "c"], ["--flag", "-x=1"], ["", "two words"], ["\u00e9\u4e2d", "'q\"", "line\nline"]]
GONE = """import os
def gone():
    with open('old.txt', 'w') as fil:
        fil.write('old')
    with open('old.txt') as fil:
        text = fil.read()
    os.remove('old.txt')
    return text
gone()
"""
NAMES = ("m0", "m1", "m2", "m3")
EXPECTED = ("Experiment id", "Tag", "Sequence key", "Sequence Key", "sequence_key", "tag")


def generate(rng, index):
    programs = [g.generate(rng, (1, 3), g.PURE + g.FILES * 3 + g.MODS * 2,
                           list(g.ENDS) if rng.random() < .3 else ["normal"]) for _ in range(rng.choice([1, 2, 2]))]
    rows = [{"do": "run", "on": rng.choice(NAMES), "program": 0, "options": nw.run_options(rng), "args": rng.choice(ARGS)}]
    for _ in range(rng.choice([4, 6, 8])):
        pick, on = rng.random(), rng.choice(NAMES)
        if pick < .36:
            rows.append({"do": "run", "on": rng.choice([on, rows[0]["on"]]), "program": rng.randrange(len(programs)),
                         "options": nw.run_options(rng), "args": rng.choice(ARGS), "bypass": rng.random() < .25})
        elif pick < .44:
            rows.append({"do": "restore", "on": rows[0]["on"], "pick": rng.randrange(100), "edit": rng.random() < .6})
        else:
            rows.append(transfer(rng, on))
    if not any(r["do"] in ("push", "import") for r in rows):
        rows.append(transfer(rng, rows[0]["on"]))
    rows.append(transfer(rng, rng.choice(NAMES)))
    for row in rows:
        if row["do"] == "run":
            row["gone"] = rng.random() < .3
    return {"kind": rng.choice(["plain", "plain", "git"]), "programs": programs, "steps": rows,
            "asks": rng.randrange(10 ** 6), "seed": rng.randrange(10 ** 6)}


def transfer(rng, on):
    do = rng.choice(["push", "push", "pull", "import"]) if on != "m0" else "import"
    net = []
    if rng.random() < .25:
        net = [{"n": rng.randrange(10), "act": rng.choice(["dup", "late", "503", "noreply"]), "ms": 60}]
    return {"do": do, "on": on, "from": rng.choice([n for n in NAMES if n != on]), "net": net}


def simplify(sc):
    for rows in c.drop_each(sc["steps"]):
        yield dict(sc, steps=rows)
    if sc["kind"] != "plain":
        yield dict(sc, kind="plain")
    for i, program in enumerate(sc["programs"]):
        for less in g.simplify(program):
            yield dict(sc, programs=sc["programs"][:i] + [less] + sc["programs"][i + 1:])
    for i, row in enumerate(sc["steps"]):
        less = []
        for key in ("options", "args", "net"):
            if row.get(key):
                less.append(dict(row, **{key: []}))
        for one in less:
            yield dict(sc, steps=sc["steps"][:i] + [one] + sc["steps"][i + 1:])


def queries(rng, ident, others, size):
    rows = [["show", ident, "-m", "-d", "-e"], ["show", ident, "-a"], ["show", ident, "-p", "-f"],
            ["export", ident], ["export", ident, "-r"], ["dataflow", ident], ["prov", ident], ["ast", ident], ["show", ident]]
    if size < 150:                   # takes long
        rows += [["evaluation", "-t", ident]] * 2
    if others:
        other = rng.choice(others)
        rows += [["diff", ident, other, "-m", "-e", "-f"], ["diff", other, ident]] * 2
    return rng.sample(rows, 4)


def kept(text):
    """Without the lines about what each store assigns; elements of one kind in any order."""
    return [line for line in text.splitlines() if not re.match(r"\s*([+-]\s*)?(%s)\b" % "|".join(EXPECTED), line)]


def execute(sc, env, out):
    world = env.world()
    m = share.Machines(world, out, sc["kind"], sc["seed"], NAMES)
    m.create()
    origin = {}                   # trial id: (machine, facts)
    for name in NAMES:
        for path, data in list(g.INPUTS.items()) + [(p, t.encode()) for p, t in g.MODULES.items()]:
            world.write(name + "/" + path, data)
    for number, row in enumerate(sc["steps"]):
        on, where = row["on"], "step %d, %s" % (number, row)
        if row["do"] == "run":
            world.write(on + "/s.py", (
                (GONE if row.get("gone") else "") + g.render(sc["programs"][row["program"]])).encode("utf-8"))
            options = [o for o in row["options"] if o]
            if row.get("bypass") and m.dump(on).exists:
                options.append("-b")
            res = m.run(on, ["run"] + options + ["s.py"] + row["args"])
            out.check(res.status == "exit" and "noworkflow/now" not in res.err.split("Error:")[-1], "run-fails",
                      lambda: "%s: %s %s" % (where, res.brief(), res.err[-900:]))
        elif row["do"] == "restore":
            db = m.dump(on)
            ids = m.finished(db) if db.exists else []
            if not ids:
                continue
            if row["edit"]:
                world.write(on + "/s.py", "edited = %d\n" % number)
            res = m.run(on, ["restore", ids[row["pick"] % len(ids)]])
            out.check(res.status == "exit", "restore-fails", lambda: "%s: %s" % (where, res.brief()))
        else:
            if row["do"] == "import":
                if not m.dump(row["from"]).exists:
                    continue
                res = m.bring(row["from"], on)
            else:
                res = m.exchange([(on, row["do"])], row["net"])[0]
            good = share.SUCCESS[row["do"]] in (res.out or "")
            out.check(good or bool(row["net"]), "fails", lambda: "%s: %s %s %s" % (
                where, res.brief(), res.out[-300:], res.err[-900:]))
            out.note(row["do"], good)
        for name in NAMES:
            db = m.dump(name)
            if not db.exists:
                continue
            for ident in m.finished(db):
                facts = m.facts(db, ident)
                if ident not in origin:
                    origin[ident] = (name, facts, set())
                    continue
                first, there, seen = origin[ident]
                text = nw.diff_facts(there, facts)
                out.check(text is None, "differs", lambda: "%s: trial %s of %s on %s: %s" % (where, ident, first, name, text))
                if name != first and name not in seen:
                    seen.add(name)
                    bad = m.lost(name, m.contents(db, [ident]))
                    out.check(not bad, "no-content", lambda: "%s: trial %s on %s: %s" % (where, ident, name, bad[:3]))
                    out.probe("received")
            m.once(db, where + ", " + name)
    ask(sc, world, out, m, origin)
    out.signature = [sc["kind"], [sorted(o[2]) for o in origin.values()], out.log]


def ask(sc, world, out, m, origin):
    rng = random.Random(sc["asks"])
    shared = sorted((i, n) for i, (_, _, seen) in origin.items() for n in seen)
    for ident, name in rng.sample(shared, min(2, len(shared))):
        first = origin[ident][0]
        both = [i for i, (where, _, seen) in sorted(origin.items())
                if i != ident and all(n == where or n in seen for n in (name, first))]
        for argv in queries(rng, ident, both, len(origin[ident][1].get("evaluation", ()))):
            one, two = m.run(first, argv), m.run(name, argv)
            what = "%s of %s: %s and %s" % (" ".join(argv), first, first, name)
            out.check(one.code == two.code, "answer", lambda: "%s: %s %s; %s %s" % (
                what, one.brief(), one.err[-500:], two.brief(), two.err[-500:]))
            a, b = kept(one.out), kept(two.out)
            out.check(a == b, "answer", lambda: "%s: %s" % (what, [p for p in zip(a + [None] * len(b), b + [None] * len(a))
                                                                   if p[0] != p[1]][:6]))
            out.probe("answers")
            out.nontrivial = True
