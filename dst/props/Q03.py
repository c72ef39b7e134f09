"""Queries report the stored facts and change nothing."""
import hashlib
import os
import random
import re
import sqlite3

from . import common as c
from . import nw
from . import programs as g
from .. import kernel as kernel_mod
from .. import target

ID = "Q03"
LEVEL = "exploration"
NOTE = ("stores of up to 7 trials of generated scripts; the facts are read from the database without the package; dataflow and "
        "the graph of a diff are only looked at for what they name, other graphs are covered by Q01")
RUNS = {"quick": 130, "thorough": 4000}
AUDIT = 6
RULE = ("A case is a history of runs and restores of generated scripts, in part killed or with a disk error at a sampled "
        "operation after partial saves, so that the store holds finished, unfinished and backup trials, and 8 queries: list, "
        "show with its kinds of facts, history with filters, its graph, diff with and without time stamps or in brief, export, "
        "dataflow, in part while another run is in progress at a sampled step. What they print is compared with the rows of "
        "the store: no fact is missing, invented or altered. Afterwards rows, contents and files are as they were. "
        "Non-trivial: three trials, one of them not finished.")
REAL = c.REAL_ALL + ["the scripts"]
STUBS = ["clock", "getrandom", "outcome of faulted system calls", "multiprocessing (parallel engines)"]
ASSUMES = ["completed writes survive a crash (no power loss)"]

KINDS = ["list", "list", "show-m", "show-d", "show-e", "show-a", "show-p", "show-f", "history", "graph", "graph", "diff", "diff", "diff",
         "diff", "export", "export", "dataflow"]
EXTRA = ["", "", "with open('in.txt') as fil:\n    fil.read()\n", "import sys\nsys.exit(3)\n", "raise ValueError('x')\n",
         "def late(n):\n    with open('late%d.txt' % n, 'w') as fil:\n        fil.write('z' * n)\nlate(1)\nlate(1)\nlate(2)\n",
         "text = 'a: b\\n  Name: c\\n'\nprint(text)\n"]


def generate(rng, index):
    programs = [g.generate(rng, (1, 2), g.PURE + g.FILES * 3 + g.MODS * 3, ["normal"]) for _ in range(2)]
    rows = []
    for _ in range(rng.choice([3, 4, 5, 7])):
        pick = rng.random()
        hit = rng.randrange(10 ** 6) if rng.random() < .4 else None
        if pick < .75 or not rows:
            rows.append({"do": "run", "script": rng.choice(["s.py", "s.py", "t.py", "sub.py"]), "program": rng.randrange(2),
                         "extra": rng.randrange(len(EXTRA)), "options": nw.run_options(rng), "bypass": rng.random() < .1,
                         "args": rng.choice([[], ["a"], ["b c", "d"]]), "hit": hit})
        else:
            rows.append({"do": "restore", "pick": rng.randrange(100), "edit": rng.random() < .7, "hit": hit})
    asks = [{"kind": rng.choice(KINDS), "one": rng.randrange(100), "two": rng.randrange(100),
             "during": rng.randrange(10 ** 6) if rng.random() < .3 else None,
             "how": rng.choice(["id", "id", "seq", "tag"]), "opt": rng.randrange(1000)} for _ in range(8)]
    return {"programs": programs, "steps": rows, "asks": asks, "engine": nw.pick_engine(rng, .1), "seed": rng.randrange(10 ** 6)}


def simplify(sc):
    for key in ("asks", "steps"):
        for rows in c.drop_each(sc[key]):
            if rows:
                yield dict(sc, **{key: rows})
    if sc["engine"] != "plain":
        yield dict(sc, engine="plain")
    for i, program in enumerate(sc["programs"]):
        for less in g.simplify(program):
            yield dict(sc, programs=sc["programs"][:i] + [less] + sc["programs"][i + 1:])
    for i, row in enumerate(sc["steps"]):
        less = []
        for key, none in (("options", []), ("args", []), ("hit", None), ("extra", 0)):
            if row.get(key):
                less.append(dict(row, **{key: none}))
        for one in less:
            yield dict(sc, steps=sc["steps"][:i] + [one] + sc["steps"][i + 1:])
    for i, row in enumerate(sc["asks"]):
        if row["during"] is not None:
            yield dict(sc, asks=sc["asks"][:i] + [dict(row, during=None)] + sc["asks"][i + 1:])


# ------------------------------------------------------------------- history
def argv_of(sc, world, row, db):
    if row["do"] == "restore":
        return ["restore", db.trials[row["pick"] % len(db.trials)]["id"]]
    options = list(row["options"]) + (["-b"] if row["bypass"] and db.trials else [])
    return ["run"] + options + [row["script"]] + row["args"]


def play(sc, world, out):
    engine = sc["engine"]
    for path, data in list(g.INPUTS.items()) + [(p, t.encode()) for p, t in g.MODULES.items()]:
        world.write(path, data)
    world.write("in.txt", b"in\n")
    for number, row in enumerate(sc["steps"]):
        world.clock.skew += 10 ** 9
        db = nw.dump(world)
        if row["do"] == "run":
            write(sc, world, row)
        elif not db.trials:
            continue
        elif row["edit"]:
            world.write("s.py", "edited = %d\n" % number)
        argv = argv_of(sc, world, row, db)
        seed = sc["seed"] + number
        if row["hit"] is None:
            nw.now(world, out, engine, *argv, seed=seed)
            continue
        snap = world.snapshot()
        kinds = nw.now(world, out, engine, *argv, seed=seed).kinds
        rng = random.Random(row["hit"])
        fault = c.pick_faults(rng, kinds, want=(lambda k: "db.sqlite" in k[1] and k[0] != "sync") if rng.random() < .7 else None)
        world.restore(snap)
        nw.now(world, out, engine, *argv, seed=seed, faults=[fault] if fault else [])
        if fault:
            out.probe("fault")


def write(sc, world, row):
    world.write(row["script"], (g.render(sc["programs"][row["program"]]) + "\n" + EXTRA[row["extra"]]).encode("utf-8"))


# --------------------------------------------------------------------- state
def rows_of(db):
    return dict((name, sorted(repr(sorted(r.items())) for r in rows)) for name, rows in db.tables.items() if name != "graph_cache")


def files_of(world):
    return world.files()


def contents_of(world):
    found = {}
    for base, _, names in os.walk(world.path(".noworkflow")):
        for name in names:
            path = os.path.join(base, name)
            if "db.sqlite" not in name and "content" in path:
                with open(path, "rb") as fil:
                    found[path] = hashlib.sha1(fil.read()).hexdigest()
    return found


# ------------------------------------------------------------------- answers
def flat(text):
    return "".join(str(text).split())


class Facts(object):
    """What a trial's rows say."""

    def __init__(self, db, trial):
        self.db, self.row, self.id = db, trial, trial["id"]
        self.blocks = dict((b["id"], b) for b in db.of("code_block", self.id))
        self.comps = dict((x["id"], x) for x in db.of("code_component", self.id))
        owner, heirs = self.id, dict((t["id"], t["modules_inherited_from_trial_id"]) for t in db.trials)
        while heirs.get(owner):
            owner = heirs[owner]
        self.owner = owner
        self.modules = db.of("module", owner)
        self.owner_blocks = dict((str(b["id"]), b) for b in db.of("code_block", owner))
        self.accesses = db.of("file_access", self.id)
        self.tags = [t["name"] for t in db["tag"] if t["trial_id"] == self.id]

    @property
    def hash(self):
        block = self.blocks.get(self.row["main_id"])
        return (block["code_hash"] or "") if block else ""

    @property
    def letter(self):
        return {"finished": "*", "backup": "b"}.get(self.row["status"], "f")

    def module_keys(self):
        return set((m["name"], m["version"], (self.owner_blocks.get(str(m["code_block_id"])) or {}).get("code_hash"))
                   for m in self.modules)

    def environment(self):
        return dict((e["name"], e["value"]) for e in self.db.of("environment_attr", self.id))

    def access_keys(self):
        return set((a["name"], a["mode"], a["content_hash_before"], a["content_hash_after"]) for a in self.accesses)


def time_of(text):
    """A stored time as it is printed."""
    text = str(text)
    return text[:-7] if text.endswith(".000000") else text


class Asker(object):
    def __init__(self, sc, world, out):
        self.sc, self.world, self.out, self.seed = sc, world, out, sc["seed"] + 1000
        self.where, self.res, self.lock = "", None, False

    # Each query: the text it prints, judged with the facts of the store
    def bad(self, cond, kind, text):
        what = self.where
        self.out.check(cond, kind, lambda: "%s: %s" % (what, text() if callable(text) else text))

    def now(self, *argv, **kw):
        self.seed += 1
        self.where = "now %s%s" % (" ".join(argv), kw.pop("note", ""))
        res = nw.now(self.world, self.out, self.sc["engine"], *argv, seed=self.seed)
        self.res = res
        fails = not res.ok or "Traceback" in res.err or "Traceback" in res.out.split("[now]")[0]
        self.bad(not fails, "fails-" + argv[0], lambda: "%s %s %s" % (res.brief(), res.out[-300:], res.err[-1500:]))
        return None if fails else res.out

    def list(self, db, ask, note):
        text = self.now("list", note=note)
        if text is None:
            return
        parts = re.split(r"^  \[(.)\]Trial (\S+): ", text, flags=re.M)
        seen = dict((parts[i + 1], (parts[i], parts[i + 2])) for i in range(1, len(parts), 3))
        self.bad(len(parts) // 3 == len(db.trials) and set(seen) == set(t["id"] for t in db.trials), "list",
                 lambda: "%s, but the store has %s" % (sorted(seen), [t["id"] for t in db.trials]))
        for trial in db.trials:
            facts = Facts(db, trial)
            letter, body = seen.get(trial["id"], ("", ""))
            self.bad(letter == facts.letter, "list", lambda: "%r for a trial that is %s" % (letter, trial["status"]))
            want = [trial["command"], "with code hash %s" % facts.hash, "ran from %s to %s" % (
                time_of(trial["start"]), time_of(trial["finish"])), "Sequence Key: %s" % trial["sequence_key"]]
            want += ["Tag: %s Type" % t for t in facts.tags]
            for one in want:
                self.bad(flat(one) in flat(body), "list", lambda: "%s: %r is not in %r" % (trial["id"], one, body))
            self.bad(body.count("Tag: ") == len(facts.tags) + trial["command"].count("Tag: "), "list",
                     lambda: "%s: tags %s, listed %r" % (trial["id"], facts.tags, body))

    def show(self, db, ask, note):
        trial = db.trials[ask["one"] % len(db.trials)]
        facts, kind = Facts(db, trial), ask["kind"][-1]
        ref = self.ref(facts, ask)
        text = self.now("show", ref, "-" + kind, note=note)
        if text is None:
            return
        head, _, body = text.partition("[now] this trial ")
        for name, value in [("Id", trial["id"]), ("Sequence Key", trial["sequence_key"]), ("Status", trial["status"].capitalize()),
                            ("Inherited Id", trial["modules_inherited_from_trial_id"]), ("Script", trial["script"]),
                            ("Code hash", facts.hash), ("Start", time_of(trial["start"])), ("Finish", time_of(trial["finish"]))]:
            self.bad(re.search(r"^  %s: %s\s*$" % (name, re.escape(str(value))), head, re.M), "show",
                     lambda: "%s should be %s in %r" % (name, value, head))
        self.bad(sorted(re.findall(r"^  Tag: (.*) Type: \w+$", head, re.M)) == sorted(facts.tags), "show",
                 lambda: "tags are %s in %r" % (facts.tags, head))
        getattr(self, "show_" + kind)(db, facts, body)

    def same(self, kind, found, want):
        found, want = sorted(found, key=repr), sorted(want, key=repr)
        self.bad(found == want, kind, lambda: "shows %s, recorded are %s" % (
            [f for f in found if f not in want][:4] or "%d rows" % len(found),
            [w for w in want if w not in found][:4] or "%d rows" % len(want)))

    def show_m(self, db, facts, body):
        found = re.findall(r"^  Name: (.*)\n    Version: (.*)\n    Path: (.*)\n(?:    Full path: .*\n)?    Code hash: (.*)$", body, re.M)
        self.same("show-modules", found, [
            (m["name"], str(m["version"]), m["path"],
             str((facts.owner_blocks.get(str(m["code_block_id"])) or {}).get("code_hash"))) for m in facts.modules])

    def show_d(self, db, facts, body):
        found = re.findall(r"^  Name: (.*) \[(.*)\]\n    Code hash: (\w+)$", body, re.M)
        self.same("show-definition", found, [(facts.comps[i]["name"], facts.comps[i]["type"], b["code_hash"])
                                             for i, b in facts.blocks.items() if i in facts.comps])

    def show_e(self, db, facts, body):
        names = re.findall(r"^  ([A-Z0-9_a-z]+): ", body, re.M)
        want = facts.environment()
        self.bad(not set(want) - set(names), "show-environment", lambda: "without %s" % sorted(set(want) - set(names))[:5])
        for name, value in want.items():
            self.bad(flat("%s: %s" % (name, value)) in flat(body), "show-environment", lambda: "%s is not %r" % (name, value))

    def show_p(self, db, facts, body):
        for row in db.of("argument", facts.id):
            self.bad(flat("%s: %s" % (row["name"], row["value"])) in flat(body), "show-arguments",
                     lambda: "%s is not %r in %r" % (row["name"], row["value"], body[-900:]))
        self.bad(len(re.findall(r"^  \w+: ", body, re.M)) >= len(db.of("argument", facts.id)), "show-arguments", body)

    def show_f(self, db, facts, body):
        found = re.findall(r"^  Name: (.*)\n    Mode: (.*)\n    Buffering: (.*)\n    Content hash before: (.*)\n"
                           r"    Content hash after: (.*)\n    Timestamp: .*\n    Function: (.*?) *$", body, re.M)
        acts = dict((a["id"], a) for a in db.of("activation", facts.id))
        evals = dict((e["id"], e) for e in db.of("evaluation", facts.id))

        def stack(ident):
            names = []
            while ident in acts and evals[ident]["activation_id"] in acts:
                names.insert(0, acts[ident]["name"])
                ident = evals[ident]["activation_id"]
            return " -> ".join(names if names and names[-1] == "open" else names + ["... -> open"])
        self.same("show-accesses", [tuple(f[:5]) for f in found],
                  [(a["name"], a["mode"], str(a["buffering"]), str(a["content_hash_before"]), str(a["content_hash_after"]))
                   for a in facts.accesses])
        self.same("show-accesses", [f[5] for f in found], [stack(a["activation_id"]) for a in facts.accesses])

    def show_a(self, db, facts, body):
        found = re.findall(r"^( +)(\d+): (.*) \(\d{4}-[0-9: .-]+ - (?:\d{4}-[0-9: .-]+|None)\)$", body, re.M)
        acts = db.of("activation", facts.id)
        evals = dict((e["id"], e) for e in db.of("evaluation", facts.id))
        ids = set(a["id"] for a in acts)

        def level(ident):
            count = 0
            while ident in ids:
                count += 1
                ident = evals[ident]["activation_id"] if ident in evals else None
            return count
        if facts.row["status"] == "finished":
            lines = dict((x, facts.comps[x]["first_char_line"]) for x in facts.comps)
            self.same("show-activations", [(len(f[0]) // 2, f[2]) for f in found], [(level(a["id"]), a["name"]) for a in acts])
            self.bad(len(found) == len(acts), "show-activations", lambda: "%d of %d" % (len(found), len(acts)))
            self.out.probe("activations", len(lines) and len(acts))
            flattened = flat(body)
            for act in acts:
                value = evals[act["id"]]["repr"]
                self.bad(value is None or flat("Return value: %s" % value) in flattened, "show-activations",
                         lambda: "%s returned %r" % (act["name"], value))

    def ref(self, facts, ask):
        if ask["how"] == "seq":
            return str(facts.row["sequence_key"])
        if ask["how"] == "tag" and facts.tags:
            return facts.tags[0]
        return facts.id

    def history(self, db, ask, note):
        script = ["*", "*", "s.py", "t.py", "none.py"][ask["opt"] % 5]
        status = ["*", "*", "finished", "unfinished", "backup"][ask["opt"] // 5 % 5]
        text = self.now("history", "-s", script, "-e", status, note=note)
        if text is None:
            return
        found = re.findall(r"([*fb])[ |]+([0-9a-f]{8}-[0-9a-f-]{27})\s*(.*?) *$", text, re.M)
        want = []
        for trial in db.trials:
            facts = Facts(db, trial)
            if self.match(trial, script, status):
                want.append((facts.letter, trial["id"], (" ".join([trial["script"]] + facts.tags)).split()))
        self.same("history", [(f[0], f[1], f[2].split()) for f in found], want)

    def match(self, trial, script, status):
        return script in ("*", trial["script"]) and (status == "*" or trial["status"] == status or (
            status == "unfinished" and trial["status"] not in ("finished", "backup")))

    def graph(self, db, ask, note):
        script = ["*", "*", "s.py", "t.py"][ask["opt"] % 4]
        status = ["*", "*", "finished", "unfinished", "backup"][ask["opt"] // 4 % 5]
        self.where = "history graph of %s, %s%s" % (script, status, note)
        res = c.run(self.world, self.out, self.sc["engine"], edges, (script, status), name="graph")
        self.bad(res.ok, "fails-graph", lambda: "%s %s" % (res.brief(), res.err[-1500:]))
        if not res.ok:
            return
        nodes, found = res.value
        good = dict((t["id"], t) for t in db.trials if self.match(t, script, status))
        parent = dict((t["id"], t["parent_id"]) for t in db.trials)
        self.same("graph-nodes", nodes, [(t["id"], t["status"]) for t in good.values()])
        want = []
        for ident in good:
            up = parent[ident]
            while up in parent and up not in good:
                up = parent[up]
            if up in good:
                want.append((ident, up))
        self.same("graph-edges", found, want)

    def diff(self, db, ask, note):
        one, two = Facts(db, db.trials[ask["one"] % len(db.trials)]), Facts(db, db.trials[ask["two"] % len(db.trials)])
        brief, hide = ask["opt"] % 4 == 0, ask["opt"] // 4 % 2 == 0
        options = (["--brief"] if brief else []) + (["-t"] if hide else [])
        text = self.now("diff", self.ref(one, ask), two.id, "-m", "-e", "-f", *options, note=note)
        if text is None:
            return
        head = text.split("[now] ")[1]
        for key, a, b in [("Script", one.row["script"], two.row["script"]), ("Code hash", one.hash, two.hash),
                          ("Command", one.row["command"], two.row["command"]), ("Status", one.row["status"], two.row["status"]),
                          ("Parent id", one.row["parent_id"], two.row["parent_id"]),
                          ("Sequence key", one.row["sequence_key"], two.row["sequence_key"])] + ([] if hide else [
                              ("Start", time_of(one.row["start"]), time_of(two.row["start"]))]):
            line = "%s changed from %s to %s" % (key, a or "<None>", b or "<None>")
            self.bad((flat(line) in flat(head)) == (a != b), "diff-trial", lambda: "%r, but %r" % (line, head))
        env1, env2 = one.environment(), two.environment()
        changed = set(k for k in env1 if k in env2 and env1[k] != env2[k])
        mod1, mod2 = one.module_keys(), two.module_keys()
        acc1, acc2 = one.access_keys(), two.access_keys()
        if brief:
            self.brief(text, [mod1, mod2], [env1, env2, changed], [acc1, acc2])
            return
        gone, new = mod1 - mod2, mod2 - mod1
        both = set(m[0] for m in gone) & set(m[0] for m in new)
        plain = len(set(m[0] for m in gone)) == len(gone) and len(set(m[0] for m in new)) == len(new)
        counts = dict((name, int(number)) for number, name in re.findall(
            r"^\[now\] (\d+) ((?:modules|environment attributes|file accesses) \w+):$", text, re.M))
        want = {"environment attributes added": len(set(env2) - set(env1)), "environment attributes removed": len(set(env1) - set(env2)),
                "environment attributes replaced": len(changed),
                "file accesses added": len(acc2 - acc1), "file accesses removed": len(acc1 - acc2), "file accesses replaced": 0}
        if plain:
            want.update({"modules added": len(new) - len(both), "modules removed": len(gone) - len(both), "modules replaced": len(both)})
        for key, number in sorted(want.items()):
            self.bad(counts.get(key) == number, "diff", lambda: "%s %s, should be %s: %r" % (key, counts.get(key), number, text[-1500:]))
        parts = dict(zip(re.findall(r"^\[now\] \d+ (.*):$", text, re.M), re.split(r"^\[now\] \d+ .*:$", text, flags=re.M)[1:]))
        for name, keys in (("added", acc2 - acc1), ("removed", acc1 - acc2)):
            found = re.findall(r"^  Name: (.*)\n    Mode: (.*)\n    Buffering: .*\n    Content hash before: (.*)\n    Content hash after: (.*)$",
                               parts.get("file accesses " + name, ""), re.M)
            self.same("diff", found, [tuple(map(str, k)) for k in keys])
            self.bad(("Timestamp: " in parts.get("file accesses " + name, "")) == (not hide and bool(keys)), "diff",
                     lambda: "time stamps in %r" % parts.get("file accesses " + name))
        if plain:
            for name, keys in (("added", new), ("removed", gone)):
                found = re.findall(r"^  Name: (.*)$", parts.get("modules " + name, ""), re.M)
                self.same("diff", found, [k[0] for k in keys if k[0] not in both])
            self.same("diff", re.findall(r"^  Name: (.*)$", parts.get("modules replaced", ""), re.M), both)
        for name in changed:
            line = "Environment attribute %s changed from %s to %s" % (name, env1[name] or "<None>", env2[name] or "<None>")
            self.bad(flat(line) in flat(text), "diff", lambda: "%r is not in the answer" % line)

    def brief(self, text, mods, envs, accs):
        env1, env2, changed = envs
        parts = re.split(r"^\[now\] Brief .* diff$", text, flags=re.M)[1:]
        self.bad(len(parts) == 3, "diff-brief", text[-500:])
        if len(parts) != 3:
            return
        columns = columns_of(parts[1])
        self.same("diff-brief", columns[0], set(env2) - set(env1))
        self.same("diff-brief", columns[1], set(env1) - set(env2))
        self.same("diff-brief", columns[2], changed)
        columns = columns_of(parts[2])
        self.same("diff-brief", [len(columns[0]), len(columns[1]), len(columns[2])],
                  [len(accs[1] - accs[0]), len(accs[0] - accs[1]), 0])

    def export(self, db, ask, note):
        trial = db.trials[ask["one"] % len(db.trials)]
        facts = Facts(db, trial)
        options = [[], ["-r"], ["-t"]][ask["opt"] % 3]
        text = self.now("export", self.ref(facts, ask), *options, note=note)
        if text is None:
            return
        if options == ["-r"]:
            text = text.split("%%")[0] if "%%" in text else text
        found = {}
        for line in text.split("\n"):
            match = re.match(r"(\w+)\('([0-9a-f-]{36})', (?:f?(\d+)|.*)", line)
            if match:
                self.bad(match.group(2) in (trial["id"], facts.owner), "export",
                         lambda: "fact of another trial: %s" % line)
                found.setdefault(match.group(1), []).append(int(match.group(3)) if match.group(3) else None)
        want = {"trial": 1, "tag": len(facts.tags), "argument": len(db.of("argument", facts.id)), "module": len(facts.modules),
                "environment": len(db.of("environment_attr", facts.id))}
        for name, number in want.items():
            self.bad(len(found.get(name, ())) == number, "export", lambda: "%d facts %s, the store has %d" % (
                len(found.get(name, ())), name, number))
        for name, table in (("code_component", "code_component"), ("code_block", "code_block"), ("activation", "activation"),
                            ("evaluation", "evaluation"), ("access", "file_access"), ("module", "module")):
            rows = facts.modules if table == "module" else db.of(table, facts.id)
            self.same("export", found.get(name, ()), [r["id"] for r in rows])
        for name in ("dependency", "member"):
            self.bad(len(found.get(name, ())) == len(db.of(name, facts.id)), "export", lambda: "%d facts %s, the store has %d" % (
                len(found.get(name, ())), name, len(db.of(name, facts.id))))

    def dataflow(self, db, ask, note):
        done = [t for t in db.trials if t["status"] == "finished"]
        if not done:
            return
        trial = done[ask["one"] % len(done)]
        argv = [[], ["-m", "simulation"], ["-m", "activation"], ["-m", "dependency"], ["-a", "2"], ["-e", "1"], ["-d", "2"],
                ["-m", "activation", "-a", "1", "-d", "1"]][ask["opt"] % 8]
        text = self.now("dataflow", trial["id"], *argv, note=note)
        if text is not None:
            self.bad("digraph" in text and text.rstrip().endswith("}"), "dataflow", text[-400:])


def columns_of(text):
    """Columns of a brief diff."""
    columns = [[], [], []]
    for line in text.strip("\n").split("\n")[1:]:
        if "|" in line:
            for column, cell in zip(columns, line.split("|")):
                if cell.strip():
                    column.append(cell.strip())
    return columns


def edges(script, status):
    """Body of a process: nodes and edges of the history graph."""
    from noworkflow.now.persistence import persistence_config
    from noworkflow.now.models.history import History
    persistence_config.connect_existing(os.getcwd())
    history = History(script=script, status=status)
    data = history.graph.graph()
    ids = [n["id"] for n in data["nodes"]]
    return ([(n["id"], n["status"]) for n in data["nodes"]],
            [(ids[e["source"]], ids[e["target"]]) for e in data["edges"]])


# ----------------------------------------------------------------------- run
def execute(sc, env, out):
    world = env.world()
    play(sc, world, out)
    db = nw.dump(world)
    if not db.exists or not db.trials:
        return
    asker = Asker(sc, world, out)
    for number, ask in enumerate(sc["asks"]):
        if ask["during"] is not None:
            during(sc, world, out, asker, ask)
        else:
            one(world, out, asker, ask, "")
    states = set(t["status"] for t in db.trials)
    out.probe("trials", len(db.trials))
    out.nontrivial = len(db.trials) >= 3 and bool(states - {"finished"})
    out.signature = [[t["status"] for t in db.trials], [(a["kind"], a["during"] is not None) for a in sc["asks"]], out.log[-20:]]


def one(world, out, asker, ask, note):
    db = nw.dump(world)
    rows, files, contents = rows_of(db), files_of(world), contents_of(world)
    getattr(asker, ask["kind"].split("-")[0])(db, ask, note)
    out.probe(ask["kind"] + ("-during" if note else ""))
    after = rows_of(nw.dump(world))
    out.check(after == rows, "changes-store", lambda: "%s changed %s" % (asker.where, [k for k in after if after[k] != rows.get(k)]))
    left, stored = files_of(world), contents_of(world)
    out.check(left == files, "changes-files", lambda: "%s changed %s" % (
        asker.where, [k for k in set(left) | set(files) if left.get(k) != files.get(k)]))
    gone = [k for k in contents if stored.get(k) != contents[k]]
    out.check(not gone, "changes-contents", lambda: "%s changed %s" % (asker.where, gone[:3]))


def readable(world):
    """No process is about to change the database file, so that readers need not wait."""
    try:
        con = sqlite3.connect("file:%s?mode=ro" % world.path(".noworkflow/db.sqlite"), uri=True, timeout=0)
        try:
            con.execute("select count(*) from sqlite_master").fetchone()
        finally:
            con.close()
    except sqlite3.OperationalError:
        return False
    return True


def during(sc, world, out, asker, ask):
    """A query while a run is in progress."""
    rng = random.Random(ask["during"])
    row = dict(sc["steps"][0] if sc["steps"][0]["do"] == "run" else {"script": "s.py", "program": 0, "extra": 0, "options": [], "args": []},
               bypass=False, do="run")
    write(sc, world, row)
    engine = sc["engine"]
    ker = kernel_mod.Kernel(world, random.Random("d%s" % ask["during"]), .5)
    options = ["-s", "1"] if rng.random() < .7 else []
    proc = ker.spawn("now-run", target.now, nw.argv_for(engine, ["run"] + options + [row["script"]]))
    stop = ker.steps + rng.choice([rng.randrange(20, 200), rng.randrange(200, 900)])
    ker.run(until=lambda k: k.steps >= stop or not proc.alive)
    ker.run(until=lambda k: not proc.alive or k.steps % 5 == 0 and readable(world))
    if proc.alive:
        out.probe("in-progress")
    try:
        one(world, out, asker, ask, " while a run is in progress (step %d)" % ker.steps)
    finally:
        ker.run()
        ker.shutdown()
    res = proc.result
    out.check(res is not None and not ker.outcome, "run-stuck", lambda: "%s: %s" % (asker.where, ker.outcome))
