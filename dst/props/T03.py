"""A trial's recorded outcome and arguments match what really happened."""
import datetime
import json
import os
import re
import sys

from .. import target
from . import common as c
from . import nw
from . import programs as g

ID = "T03"
LEVEL = "exploration"
NOTE = ("generated scripts and ways to end them, interrupts at sampled lines of the script and of the collector "
        "while the script runs; interrupts during storage, os._exit and signals that kill are T01's")
RUNS = {"quick": 240, "thorough": 9000}
AUDIT = 12
RULE = ("A case is one to three runs of generated scripts that end in a generated way (return, uncaught exception, "
        "exit with None, zero, other numbers, text or objects) at a generated place (top level, call depth, generator, "
        "comprehension, class body, imported module, with, finally), or are interrupted by SIGINT at a sampled line "
        "event of the script or of the collector under it, with generated options, environment, arguments, directory, "
        "engine and clock. Each records one trial, with a finish time, the status and exit code that plain Python "
        "gives, its own command, script, directory, options, environment, and times that enclose those printed by the "
        "script; list and show report them. Non-trivial: not a normal end.")
REAL = c.REAL_ALL + ["the generated script"]
STUBS = ["clock", "getrandom", "multiprocessing (parallel engines)", "delivery of SIGINT"]
ASSUMES = ["the first KeyboardInterrupt is the one that ends the script"]

#: statements that end the script: name -> (text, exit status, finished)
ENDS = {
    "normal": ("pass", 0, True),
    "exit": ("raise SystemExit", 0, True),
    "exit-none": ("sys.exit(None)", 0, True),
    "exit-0": ("sys.exit(0)", 0, True),
    "exit-false": ("sys.exit(False)", 0, True),
    "exit-1": ("sys.exit(1)", 1, False),
    "exit-3": ("sys.exit(3)", 3, False),
    "exit-true": ("sys.exit(True)", 1, False),
    "exit-255": ("sys.exit(255)", 255, False),
    "exit-256": ("sys.exit(256)", 0, False),
    "exit-minus": ("sys.exit(-2)", 254, False),
    "exit-text": ("sys.exit('bye {} %s')", 1, False),
    "exit-empty": ("sys.exit('')", 1, False),
    "exit-zero-text": ("sys.exit('0')", 1, False),
    "exit-float": ("sys.exit(0.0)", 1, False),
    "exit-tuple": ("raise SystemExit(0, 0)", 1, False),
    "exit-object": ("sys.exit(Unprintable())", 1, False),
    "exit-subclass": ("raise MyExit(7)", 7, False),
    "builtin-exit": ("exit(5)", 5, False),
    "builtin-quit": ("quit()", 0, True),
    "value": ("raise ValueError('v')", 1, False),
    "key": ("{}['k']", 1, False),
    "zero": ("1 // 0", 1, False),
    "unprintable": ("raise Unprintable()", 1, False),
    "surrogate": ("raise ValueError('\\udcff {} %d')", 1, False),
    "base": ("raise MyBase(1)", 1, False),
    "genexit": ("raise GeneratorExit()", 1, False),
    "stopiter": ("raise StopIteration(3)", 1, False),
    "keyboard": ("raise KeyboardInterrupt()", 130, False),
    "keyboard-sub": ("raise MyInterrupt()", 130, False),
    "recursion": ("endless()", 1, False),
    "memory": ("raise MemoryError()", 1, False),
    "os": ("open('/nonexistent/x')", 1, False),
    "assert": ("assert False, 'no'", 1, False),
    "group": ("raise ExceptionGroup('g', [ValueError(1), KeyError(2)])", 1, False),
    "chained": ("raise_from()", 1, False),
    "name": ("undefined_name", 1, False),
    "import": ("import does_not_exist", 1, False),
    "syntax-exec": ("exec('a b')", 1, False),
    "closed-stdout": ("sys.stdout.close(); sys.exit(6)", 6, False),
    "none-stdout": ("sys.stdout = None; sys.exit(6)", 6, False),
    "caught": ("caught()", 0, True),
}

#: where the statement S stands
PLACES = {
    "top": "S\n",
    "call": "def last(n):\n    if n:\n        return last(n - 1)\n    S\n    return 3\nprint(last(DD))\n",
    "method": "class Obj(object):\n    def go(self):\n        S\n        return self\nObj().go()\n",
    "generator": "def gen():\n    yield 1\n    S\n    yield 2\nfor item in gen():\n    print(item)\n",
    "comprehension": "def each(i):\n    if i == 2:\n        S\n    return i\nprint([each(i) for i in range(4)])\n",
    "class": "class Body(object):\n    x = 1\n    S\n",
    "module": "import ending\n",
    "with": "class Ctx(object):\n    def __enter__(self):\n        return self\n    def __exit__(self, *a):\n        return False\n"
            "with Ctx() as ctx:\n    S\n",
    "file": "with open('made.txt', 'w') as fil:\n    fil.write('some')\n    S\n",
    "exit-method": "class Ctx(object):\n    def __enter__(self):\n        return self\n    def __exit__(self, *a):\n        S\n"
                   "with Ctx():\n    print('in')\n",
    "finally": "try:\n    print('try')\nfinally:\n    S\n",
    "except": "try:\n    [][3]\nexcept IndexError:\n    S\n",
    "loop": "for i in range(3):\n    if i == 1:\n        S\n",
    "callback": "def key(x):\n    S\n    return x\nprint(sorted([3, 1], key=key))\n",
    "decorated": "def deco(f):\n    def inner(*a):\n        return f(*a)\n    return inner\n@deco\ndef dec(x):\n    S\n    return x\n"
                 "print(dec(3))\n",
    "lambda": "def do():\n    S\nfn = lambda: do()\nfn()\n",
    "property": "class Pro(object):\n    @property\n    def p(self):\n        S\n        return 1\nPro().p\n",
    "del": "def do():\n    S\nwhile True:\n    do()\n    break\nelse:\n    print('else')\n",
}

PRELUDE = '''import sys, time, json, os
print("@@" + json.dumps(["begin", time.time(), sys.argv, os.getcwd(), [[k, v] for k, v in os.environ.items() if k not in ("PID",)]]))
sys.stdout.flush()
class Unprintable(Exception):
    def __repr__(self):
        raise ValueError("no repr")
    __str__ = __repr__
class MyExit(SystemExit):
    pass
class MyBase(BaseException):
    pass
class MyInterrupt(KeyboardInterrupt):
    pass
def endless():
    return endless() + 1
def raise_from():
    try:
        {}["a"]
    except KeyError as exc:
        raise RuntimeError("outer") from exc
def caught():
    try:
        sys.exit(9)
    except SystemExit:
        print("stays")
    try:
        raise KeyboardInterrupt()
    except BaseException:
        print("alive")
'''

#: what a script may do to what describes it
TAMPER = ["", "", "", "sys.argv.append('more')", "sys.argv[:] = []", "os.environ['NOWTEST'] = 'changed'",
          "os.environ.pop('NOWTEST', None)", "os.environ['PWD'] = '/nowhere'",
          "os.makedirs('moved', exist_ok=True)\nos.chdir('moved')", "__file__ = 'other.py'", "__name__ = 'other'",
          "os.remove(__file__)", "time.sleep(0)", "sys.path[:] = []"]

LAST = 'print("@@" + json.dumps(["end", time.time()]))\nsys.stdout.flush()\n'

VARS = {"NOWTEST": ["a value", "", "1", "caf\u00e9", "a\nb", "\udcff", "x" * 3000], "TZ": ["America/Sao_Paulo", "UTC"],
        "LANGUAGE": ["pt_BR"], "USERNAME": ["someone"]}

#: options and what they record
OPTIONS = [(["-d", "3"], {"depth": "3"}), (["-d", "0"], {"depth": "0"}), (["-c", "all"], {"context": "'all'"}),
           (["-c", "package"], {"context": "'package'"}), (["-s", "0"], {"save_frequency": "0"}),
           (["-s", "7"], {"save_frequency": "7"}), (["-S", "5"], {"call_storage_frequency": "5"}),
           (["--name", "other name"], {"name": "'other name'"}), (["--message", "it's"], {"message": '"it\'s"'}),
           (["-v"], {"verbose": "True"}), (["--depth", "50"], {"depth": "50"})]
DEFAULTS = {"bypass_modules": "False", "context": "'main'", "name": "None", "message": "None", "verbose": "False",
            "dir": "None", "meta": "False"}


def generate(rng, index):
    runs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        interrupt = rng.random() < .3
        names = SAFE if interrupt else g.PURE + g.FILES + g.MODS
        options = []
        while rng.random() < .4:
            options.append(rng.randrange(len(OPTIONS)))
        run = {"program": g.generate(rng, (0, 3), names), "end": rng.choice(sorted(ENDS)),
               "place": rng.choice(sorted(PLACES)), "depth": rng.randrange(6), "options": sorted(set(options)),
               "argv": [rng.choice(["x", "-v", "--dir", "a b", "3", "", "\u00e9", "\udcfe", "run"])
                        for _ in range(rng.randrange(4))],
               "env": dict((k, rng.choice(v)) for k, v in VARS.items() if rng.random() < .3),
               "where": rng.choice(["", "", "", "sub", "up"]), "interrupt": None, "tamper": rng.randrange(len(TAMPER)),
               "tick": rng.choice([1000, 1000, 10 ** 5, 10 ** 6]), "jump": rng.choice([0, 0, 3600, 86400 * 40])}
        if interrupt:
            run["end"], run["place"] = "normal", "call"
            run["interrupt"] = [rng.choice(["script", "script", "any"]), rng.randrange(10 ** 6)]
        runs.append(run)
    return {"runs": runs, "engine": nw.pick_engine(rng, .1), "seed": rng.randrange(10 ** 6)}


def catching(text):
    return re.search(r"except\s*:|BaseException|KeyboardInterrupt|__exit__|suppress|GeneratorExit|__del__|sys\.exit|"
                     r"SystemExit|return.*finally|threading|weakref|finally:\n\s+(return|break|continue)", text)


#: programs that an interrupt ends at once
SAFE = [n for n in g.PURE + g.FILES if not catching(g.T[n][1]) and "finally" not in g.T[n][1]]


def simplify(sc):
    for runs in c.drop_each(sc["runs"]):
        if runs:
            yield dict(sc, runs=runs)
    for index, run in enumerate(sc["runs"]):
        for change in variants(run):
            yield dict(sc, runs=sc["runs"][:index] + [change] + sc["runs"][index + 1:])
    if sc["engine"] != "plain":
        yield dict(sc, engine="plain")


def variants(run):
    for program in g.simplify(run["program"]):
        yield dict(run, program=program)
    for key, plain in (("end", "normal"), ("place", "top"), ("depth", 0), ("tamper", 0), ("where", ""), ("env", {}), ("tick", 1000),
                       ("jump", 0), ("argv", []), ("options", [])):
        if run[key] != plain and (key not in ("end", "place") or not run["interrupt"]):
            yield dict(run, **{key: plain})
    for key in ("argv", "options"):
        for shorter in c.drop_each(run[key]):
            yield dict(run, **{key: shorter})


def script(run):
    text = PRELUDE + TAMPER[run["tamper"]] + "\n" + "".join(g.render_snippet(n, item) for n, item in enumerate(run["program"]["snippets"])
                             if item[0] != "expr")
    statement = ENDS[run["end"]][0]
    place = PLACES[run["place"]].replace("DD", str(run["depth"]))
    place = re.sub(r"^( *)S$", lambda m: m.group(1) + statement, place, flags=re.M)
    return text + place + LAST, "import sys\nfrom __main__ import *\n%s\n" % statement


def interrupted(at, where):
    """Have SIGINT delivered at the at-th line event while the script runs."""
    import signal
    count = [0, False]
    path = os.path.realpath("s.py")

    def trace(frame, event, arg):
        name = frame.f_code.co_filename
        mine = name == path
        if mine and not count[1]:
            count[1] = frame                       # the module of the script
        if not count[1] or not (mine or (where == "any" and "prov_execution" in name)):
            return trace if not count[1] else None
        if event == "return" and frame is count[1]:
            sys.settrace(None)
            return None
        if event == "line":
            count[0] += 1
            if count[0] == at:
                sys.settrace(None)
                signal.raise_signal(signal.SIGINT)
                return None
        return trace
    sys.settrace(trace)
    return count


def launch(argv, env, interrupt, report):
    """Body of a process: `now run`, in an environment, maybe interrupted."""
    import time
    os.environ.update(env)
    time.tzset()
    if interrupt:
        count = interrupted(*interrupt)
        try:
            return target.now(*argv)
        finally:
            sys.settrace(None)
            with open(report, "w") as fil:
                fil.write(str(count[0]))
    return target.now(*argv)


def plain_launch(argv, env):
    import time
    os.environ.update(env)
    time.tzset()
    return g.plain_run(*argv)


def execute(sc, env, out):
    world = env.world()
    engine = sc["engine"]
    known = set()
    for number, run in enumerate(sc["runs"]):
        what = "run %d (%s, %s in %s, interrupt %s)" % (number, engine, run["end"], run["place"], run["interrupt"])
        text, ending = script(run)
        folder = run["where"] == "sub"
        name = "sub/s.py" if folder else "s.py"
        for path, data in list(g.INPUTS.items()) + [(p, t.encode()) for p, t in g.MODULES.items()]:
            world.write(path, data)
            if folder:
                world.write("sub/" + path, data)
        world.write(name, text.encode())
        world.write(("sub/" if folder else "") + "ending.py", ending.encode())
        world.write("up/x", "")
        cwd = "up" if run["where"] == "up" else ""
        given = "../s.py" if cwd else name
        options = [o for index in run["options"] for o in OPTIONS[index][0]]
        argv = nw.argv_for(engine, ["run"] + options + [given] + run["argv"])
        report = os.path.join(world.io, "lines")
        world.clock.skew += run["jump"] * 10 ** 9
        world.clock.tick = run["tick"]
        interrupt = None
        snap = world.snapshot()
        if run["interrupt"]:
            c.run(world, out, engine, launch, (argv, run["env"], (0, run["interrupt"][0]), report), cwd=cwd, cpus=1,
                  seed=sc["seed"], name="profile")
            with open(report) as fil:
                total = int(fil.read())
            world.restore(snap)
            if total < 2:
                out.note("no lines", total)
                return
            interrupt = (1 + run["interrupt"][1] % (total - 1), run["interrupt"][0])
            want = (130, False)
            out.probe("interrupt_" + run["interrupt"][0])
        else:
            plain = out.proc(world.run(plain_launch, ([given] + run["argv"], run["env"]), cwd=cwd))
            world.restore(snap)
            want = ENDS[run["end"]][1:]
            if not run["tamper"] and not run["program"]["snippets"] and run["place"] not in ("generator", "finally", "exit-method"):
                out.check(want[0] == plain.code, "model", lambda: "%s: plain Python ends with %s: %s" % (
                    what, plain.brief(), plain.err[-700:]))
            want = (plain.code, plain.code == 0 and run["end"] != "exit-256")
            out.probe("end_" + run["end"])
            if "@@[\"begin\"" not in plain.out or plain.code == 70:
                return
        res = c.run(world, out, engine, launch, (argv, run["env"], interrupt, report), cwd=cwd, seed=sc["seed"],
                    name="now-run")
        world.clock.tick = 1000
        db = dump(world, folder)
        known = judge(sc, run, world, out, engine, res, db, folder, known, want, argv, given, what, cwd)
        if known is None:
            return
        if run["end"] != "normal" or interrupt:
            out.nontrivial = True
    out.signature = [sc["runs"], engine]


def dump(world, folder):
    return nw.dump(world, "sub") if folder else nw.dump(world)


def judge(sc, run, world, out, engine, res, db, folder, known, want, argv, given, what, cwd):
    lines = [json.loads(l[2:]) for l in res.out.split("\n") if l.startswith("@@[")]
    if not out.check(res.status == "exit", "no-end", lambda: "%s: %s %s" % (what, res.brief(), res.err[-800:])):
        return None
    new = [t for t in db.trials if t["id"] not in known]
    out.check(len(new) == 1, "trials", lambda: "%s: %s recorded %d trials: %s%s" % (
        what, res.brief(), len(new), res.out[-500:], res.err[-1500:]))
    if len(new) != 1:
        return None
    trial = new[0]
    tail = lambda: "%s: %s, trial %r\n%s%s" % (what, res.brief(), trial, res.out[-500:], res.err[-1500:])
    status = "finished" if want[1] else "unfinished"
    if interrupt_missed(run, res):
        # the interrupt came after the last line of the script
        out.note("missed")
    else:
        out.check(trial["finish"] is not None, "no-finish", tail)
        out.check(trial["status"] == status, "status", lambda: "expected %s; %s" % (status, tail()))
        out.check(res.code == want[0], "exit-code", lambda: "expected %d; %s" % (want[0], tail()))
    # what it was
    command = " ".join(argv)
    same = lambda text: text.encode("utf-8", "backslashreplace").decode("utf-8")
    out.check(same(trial["command"]) == same(command), "command", lambda: "%s: recorded %r for %r" % (
        what, trial["command"], command))
    expected = dict(DEFAULTS)
    for index in run["options"]:
        expected.update(OPTIONS[index][1])
    name = "other name" if expected["name"] != "None" else "s.py"
    out.check(trial["script"] == name, "script", lambda: "%s: script %r" % (what, trial["script"]))
    root = os.path.realpath(world.path("sub") if folder else world.path())
    out.check(trial["path"] == root, "path", lambda: "%s: path %r" % (what, trial["path"]))
    arguments = dict((r["name"], r["value"]) for r in db.of("argument", trial["id"]))
    expected["argv"] = repr([given] + run["argv"])
    expected["script"] = repr(os.path.join(root, "s.py"))
    for key, value in sorted(expected.items()):
        got = arguments.get(key)
        out.check(got is not None and same(got).lstrip("u") == same(value), "argument",
                  lambda: "%s: argument %s is %r, not %r" % (what, key, got, value))
    found = {}
    for row in db.of("environment_attr", trial["id"]):
        found.setdefault(row["name"], []).append(row["value"])
    begin = lines[0] if lines else None
    if begin and begin[0] == "begin":
        for key, value in begin[4]:
            out.check(same(value) in [same(str(v)) for v in found.get(key, [])], "environment",
                      lambda: "%s: variable %s=%r is recorded as %r" % (what, key, value[:100], found.get(key)))
        out.check(found.get("PWD", [None])[-1] == world.path(cwd) if cwd else found.get("PWD", [None])[-1] == world.path(),
                  "cwd", lambda: "%s: PWD %r" % (what, found.get("PWD")))
    # when it was
    if begin and trial["start"] and trial["finish"]:
        zone = run["env"].get("TZ", "UTC")
        stamps = [stamp(l[1], zone) for l in lines if l[0] in ("begin", "end")]
        start, finish = parse(trial["start"]), parse(trial["finish"])
        slack = datetime.timedelta(microseconds=2)
        out.check(stamps[0] - datetime.timedelta(seconds=1800) < start <= stamps[0] + slack, "start",
                  lambda: "%s: started %s, script began %s (%s)" % (what, start, stamps[0], zone))
        out.check(stamps[-1] - slack <= finish < stamps[-1] + datetime.timedelta(seconds=1800), "finish",
                  lambda: "%s: finished %s, script ended %s (%s)" % (what, finish, stamps[-1], zone))
    # what is reported
    where = ["--dir", "sub"] if folder else []
    res = nw.now(world, out, engine, "list", *where)
    letter = {"finished": "*", "unfinished": "f"}.get(trial["status"], "f") if trial["finish"] else "f"
    out.check("[%s]Trial %s: " % (letter, trial["id"]) in res.out, "list", lambda: "%s: now list of a %s trial: %s%s" % (
        what, trial["status"], res.out[-1000:], res.err[-800:]))
    res = nw.now(world, out, engine, "show", *(where + [trial["id"]]))
    out.check(res.ok and trial["id"] in res.out and "Status: " + trial["status"].capitalize() in res.out or
              trial["status"] in res.out.lower(), "show",
              lambda: "%s: now show of a %s trial: %s%s" % (what, trial["status"], res.out[-1000:], res.err[-800:]))
    return known | {trial["id"]}


def interrupt_missed(run, res):
    return bool(run["interrupt"]) and '@@["end"' in res.out


def parse(text):
    return datetime.datetime.fromisoformat(str(text))


def stamp(seconds, zone):
    hours = -3 if zone == "America/Sao_Paulo" else 0
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=seconds + hours * 3600)
