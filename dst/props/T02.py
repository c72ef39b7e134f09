"""Finished trials are complete and every reference in them resolves."""
import os
import random

from . import common as c
from . import nw
from . import programs as g

ID = "T02"
LEVEL = "exploration"
NOTE = ("generated scripts, options, engines, clocks and disk faults; the loaded files are compared with what the disk "
        "held when the run started; scripts do not rewrite a module between finding and loading it")
RUNS = {"quick": 420, "thorough": 9000}
AUDIT = 12
RULE = ("A case is one to three runs of generated scripts (script file with LF or CRLF, byte order mark or coding "
        "line; local modules and packages; scripts that rewrite their own files while they run) with generated "
        "options, content engine and clock speed (so that partial saves happen between any two items), some of them "
        "with a disk fault in the store. For each trial shown as finished: every reference of every row resolves, "
        "activations are closed, every content hash reads back in a new process, the files loaded are stored byte for "
        "byte. Non-trivial: a finished trial with more than 30 evaluations or a fault.")
REAL = c.REAL_ALL + ["the generated script"]
STUBS = ["clock", "getrandom", "outcome of faulted system calls", "multiprocessing (parallel engines)"]
ASSUMES = ["only `now` writes to its store"]

#: ways to write the script's file
DRESS = ["lf", "lf", "lf", "crlf", "bom", "latin1", "noeol", "cr", "formfeed"]
#: what a script does to its own files once it runs
SELF = {
    "": "",
    "rewrite": "with open('s.py', 'w') as selffile:\n    selffile.write('# rewritten')\n",
    "remove": "import os as selfos\nselfos.remove('s.py')\n",
    "module": "import mod as selfmod\nwith open('mod.py', 'a') as selffile:\n    selffile.write('\\n# more')\n",
    "replace": "import os as selfos\nwith open('mod.new', 'w') as selffile:\n    selffile.write('def triple(x):\\n"
               "    return 0\\n')\nimport mod\nselfos.replace('mod.new', 'mod.py')\n",
    "dynamic": "with open('fresh.py', 'w') as selffile:\n    selffile.write('fresh = 1')\nimport fresh as selffresh\n"
               "print(selffresh.fresh)\n",
}


def generate(rng, index):
    runs = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        program = g.generate(rng, (1, 5), g.PURE + g.FILES + g.MODS * 3 + ['expr'] * 10,
                             list(g.ENDS) if rng.random() < .5 else ["normal"])
        runs.append({"program": program, "options": nw.run_options(rng), "dress": rng.choice(DRESS),
                     "self": rng.choice([""] * 4 + sorted(SELF)), "bypass": rng.random() < .15,
                     "tick": rng.choice([1000, 1000, 10 ** 5, 10 ** 5, 10 ** 6]),
                     "fault": rng.randrange(10 ** 6) if rng.random() < .25 else None})
    return {"runs": runs, "engine": nw.pick_engine(rng), "seed": rng.randrange(10 ** 6)}


def simplify(sc):
    for runs in c.drop_each(sc["runs"]):
        if runs:
            yield dict(sc, runs=runs)
    for index, run in enumerate(sc["runs"]):
        for change in variants(run):
            yield dict(sc, runs=sc["runs"][:index] + [change] + sc["runs"][index + 1:])
    if sc["engine"] != "plain":
        yield dict(sc, engine="plain")


def variants(run):
    for program in g.simplify(run["program"]):
        yield dict(run, program=program)
    for key, plain in (("dress", "lf"), ("self", ""), ("bypass", False), ("tick", 1000), ("fault", None)):
        if run[key] != plain:
            yield dict(run, **{key: plain})
    for options in nw.drop_options(run["options"]):
        yield dict(run, options=options)


def dressed(text, how):
    if how == "crlf":
        return text.replace("\n", "\r\n").encode("utf-8")
    if how == "cr" and '"""' not in text and "'''" not in text:
        return text.replace("\n", "\r").encode("utf-8")
    if how == "bom":
        return b"\xef\xbb\xbf" + text.encode("utf-8")
    if how == "latin1":
        return b"# -*- coding: latin-1 -*-\n# caf\xe9\n" + text.encode("latin-1", "backslashreplace")
    if how == "noeol":
        return text.rstrip("\n").encode("utf-8")
    if how == "formfeed":
        return b"\x0c# page\n" + text.encode("utf-8")
    return text.encode("utf-8")


def plain_modules(script):
    """The files of the working directory the script's modules come from."""
    import sys
    try:
        g.plain_run(script)
    except BaseException:
        pass
    here = os.getcwd() + os.sep
    return sorted(set(os.path.abspath(m.__file__) for n, m in list(sys.modules.items())
                      if not n.startswith("__m") and getattr(m, "__file__", None)
                      and os.path.abspath(m.__file__).startswith(here)))


def execute(sc, env, out):
    world = env.world()
    rng = random.Random(sc["seed"])
    engine = sc["engine"]
    seen = {}
    for number, run in enumerate(sc["runs"]):
        g.install(world, run["program"])
        world.write("s.py", dressed(SELF[run["self"]] + g.render(run["program"]), run["dress"]))
        snap = world.snapshot()
        imported = out.proc(world.run(plain_modules, ("s.py",))).value or []
        world.restore(snap)
        before = world.files()
        options = list(run["options"])
        if run["bypass"] and number and seen:
            options.append("-b")
        world.clock.tick = run["tick"]
        if run["fault"] is not None:
            profile = nw.now(world, out, engine, "run", *(options + ["s.py"]), seed=sc["seed"])
            world.restore(snap)
            world.clock.tick = run["tick"]
            fault = c.pick_faults(random.Random(run["fault"]), profile.kinds,
                                  want=lambda k: ".noworkflow" in k[1] or k[0] == "exec")
            faults = [fault] if fault else []
            res = nw.now(world, out, engine, "run", *(options + ["s.py"]), seed=sc["seed"], faults=faults)
            out.probe("fault")
            out.nontrivial = True
        else:
            fault = None
            res = nw.now(world, out, engine, "run", *(options + ["s.py"]), seed=sc["seed"])
        world.clock.tick = 1000
        what = "run %d (%s, %s, %s)%s" % (number, engine, run["dress"], run["self"] or "-",
                                          " with %s" % fault if fault else "")
        db = nw.dump(world)
        new = [t for t in db.trials if t["id"] not in seen]
        if fault is None:
            out.check(len(new) == 1 and res.status == "exit", "no-trial",
                      lambda: "%s: %s, %d new trials: %s" % (what, res.brief(), len(new), res.err[-800:]))
        for trial in new:
            seen[trial["id"]] = what
            if trial["finish"] is None:
                out.check(fault is not None, "unfinished", lambda: "%s: no finish time" % what)
                continue
            judge_trial(world, out, engine, db, trial, before, [] if fault else imported, what, "-b" in options)
    # what was complete stays complete
    db = nw.dump(world)
    for trial in db.trials:
        if trial["finish"] is not None and trial["id"] in seen:
            for kind, text in nw.broken(db, trial):
                out.violate("later-" + kind, "%s: %s" % (seen[trial["id"]], text))
    out.note(engine, [t["status"] for t in db.trials], len(db["evaluation"]))
    out.nontrivial = out.nontrivial or len(db["evaluation"]) > 30
    out.signature = [engine, out.log]


def judge_trial(world, out, engine, db, trial, before, imported, what, bypass):
    for kind, text in nw.broken(db, trial):
        out.violate(kind, "%s: %s" % (what, text))
    for row in db.of("file_access", trial["id"]):
        out.check(row["checkpoint"] is not None, "file-access", lambda: "%s: %r" % (what, row))
    mentioned = nw.hashes(db, trial["id"])
    main = nw.main_hash(db, trial)
    mods = nw.modules(db, trial)
    for row, code_hash in mods:
        if code_hash:
            mentioned.setdefault(code_hash, "module %s" % row["name"])
    res = c.run(world, out, engine, nw.read_contents, (engine, sorted(mentioned)), cpus=1)
    if not out.check(res.ok and res.value is not None, "reader", lambda: "%s: %s" % (res.brief(), res.err[-800:])):
        return
    data = res.value
    for ident, where in sorted(mentioned.items()):
        out.check(isinstance(data[ident], bytes), "content-unreadable",
                  lambda: "%s: %s (%s) reads %r" % (what, ident, where, data[ident]))
    out.check(main is not None and data.get(main) == before["s.py"], "script-bytes",
              lambda: "%s: script holds %r, recorded %r" % (what, before["s.py"][:200], str(data.get(main))[:200]))
    root = world.path() + os.sep
    have = set()
    for row, code_hash in mods:
        path = os.path.join(world.path(), row["path"] or "")
        have.add(path)
        if bypass:
            continue
        want = before.get(path[len(root):]) if path.startswith(root) else None
        if want is None and path == root + "fresh.py":
            want = b"fresh = 1"
        if want is None and os.path.isfile(path) and not path.startswith(root):
            with open(path, "rb") as fil:
                want = fil.read()
        if want is not None:
            out.check(data.get(code_hash) == want, "module-bytes",
                      lambda: "%s: module %s holds %r, recorded %r" % (
                          what, path, want[:200], str(data.get(code_hash))[:200]))
            out.probe("module")
    if not bypass:
        for path in imported:
            out.check(path in have, "module-missing", lambda: "%s: %s is not recorded" % (what, path))
