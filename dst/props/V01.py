"""Restoring a trial reproduces its files exactly."""
import datetime
import hashlib
import posixpath
import random

from . import common as c
from . import nw

ID = "V01"
LEVEL = "exploration"
NOTE = "generated projects of one script, three modules and eight files; histories of up to 12 edits, runs and restores"
RUNS = {"quick": 320, "thorough": 6000}
AUDIT = 8
RULE = ("A case is a project (script in the current folder or below it, with or without another name) and a history of "
        "edits, removals, runs and restores, in part with skipped kinds of files, of single files by number, hash or time. "
        "A model that knows what the generated script does gives, per trial, the content that its script, modules and "
        "files had when it started. After each restore of a finished trial these files hold it and every other file is as "
        "it was. In part an earlier restore was killed or failed at a sampled operation. Non-trivial: a restore that "
        "changed files.")
REAL = c.REAL_ALL + ["the scripts"]
STUBS = ["clock", "getrandom", "outcome of faulted system calls", "multiprocessing (parallel engines)"]
ASSUMES = ["files do not change while the script runs, except by the script", "completed writes survive a crash (no power loss)"]

DATA = ["a.txt", "b.bin", "d/c.txt", "sp ace.txt", "x.csv", "ta.txt", ".hid", "d/a.txt"]
MODULES = ["mod.py", "pkg/__init__.py", "pkg/inner.py"]
LAYOUTS = ["root", "root", "root", "root", "below", "below-dir", "dir-dot"]
SPELL = ["plain", "plain", "plain", "abs", "dot", "chdir", "bytes"]


# ---------------------------------------------------------------- the script
def actions(rng):
    rows = []
    for number in range(rng.choice([0, 1, 2, 3, 4, 6])):
        rows.append([rng.choice(["read", "read", "read", "write", "append", "update"]), rng.choice(DATA),
                     rng.choice(SPELL), rng.random() < .35, number])
    return {"acts": rows, "mods": sorted(rng.sample(MODULES, rng.choice([0, 1, 1, 2, 3]))),
            "self": rng.random() < .15, "end": rng.choice(["", "", "", "raise ValueError('end')", "import sys; sys.exit(3)"]),
            "nl": rng.choice(["\n", "\n", "\n", "\r\n"]), "pad": rng.randrange(1000)}


def mods_of(spec):
    """Files of the modules that the script imports, packages first."""
    mods = list(spec["mods"])
    if "pkg/inner.py" in mods and "pkg/__init__.py" not in mods:
        mods.append("pkg/__init__.py")
    return sorted(mods)


def piece(number, kind):
    return b"<%d%s>\x00\xff\r\n" % (number, kind[:1].encode())


def render(spec, prefix):
    """The text of the script; the names of files start with prefix, the folder of the script."""
    rows = ["import os", "got = []"]
    for name in mods_of(spec):
        rows.append("import " + name[:-3].replace("/__init__", "").replace("/", "."))
    inside, outside = ["def use():", "    got.append(1)"], []
    for kind, name, spell, func, number in spec["acts"]:
        full = prefix + name
        expr = {"plain": "%r", "abs": "os.path.abspath(%r)", "dot": "'./' + %r", "bytes": "%r.encode()",
                "chdir": "%r"}[spell] % full
        text = number % 2 and kind == "read"
        mode = {"read": "r" if text else "rb", "write": "wb", "append": "ab", "update": "rb+"}[kind]
        use = "got.append(fil.read())" if kind == "read" else "fil.write(%r)" % piece(number, kind)
        more = ", errors='replace'" if text else ""
        body = ["try:", "    with open(%s, %r%s) as fil:" % (expr, mode, more), "        " + use,
                "except FileNotFoundError:", "    pass"]
        if spell == "chdir":
            body = (["os.makedirs(%r, exist_ok=True)" % (prefix + "d"), "os.chdir(%r)" % (prefix + "d"), "try:",
                     "    with open(%r, %r%s) as fil:" % (posixpath.relpath(name, "d"), mode, more), "        " + use,
                     "except FileNotFoundError:", "    pass", "os.chdir(%r)" % ("../.." if prefix else "..")])
        (inside if func else outside).extend(["    " + r for r in body] if func else body)
    rows += inside + ["use()"] + outside
    if spec["self"]:
        rows += ["with open(__file__, 'rb') as fil:", "    got.append(fil.read())"]
    rows += ["# %d" % spec["pad"], spec["end"]]
    return spec["nl"].join(rows).encode() + spec["nl"].encode()


def predict(spec, fs):
    """(files after, [(name, before, after)] of the accesses in order); names without prefix."""
    fs = dict(fs)
    accesses = []
    for func in (True, False):
        mine = []
        for kind, name, _, where, number in spec["acts"]:
            if where != func:
                continue
            before = fs.get(name)
            if before is None and kind in ("read", "update"):
                continue
            text = piece(number, kind)
            if kind == "write":
                fs[name] = text
            elif kind == "append":
                fs[name] = (before or b"") + text
            elif kind == "update":
                fs[name] = text + before[len(text):]
            mine.append([name, before, None])
        for row in mine:
            row[2] = fs[row[0]]
        accesses += mine
    if spec["self"]:
        accesses.append(["s.py", fs["s.py"], fs["s.py"]])
    return fs, accesses


# ------------------------------------------------------------------ scenario
def data_for(rng):
    if rng.random() < .12:
        return ""
    return rng.choice(["", "text\n", "one\r\ntwo\r\n", "\ufeffbom", "x" * 5000]) + str(rng.randrange(50))


def history(rng, count, restores=.32):
    rows = [{"do": "edit", "file": "s.py", "spec": actions(rng)}, {"do": "edit", "file": "d/keep", "data": "keep"}]
    for name in DATA + MODULES:
        if name in MODULES or rng.random() < .6:
            rows.append(edit(rng, name))
    rows.append({"do": "run", "args": [], "opts": []})
    for _ in range(count):
        pick = rng.random()
        if pick < .3:
            rows.append(edit(rng, rng.choice(["s.py", "s.py"] + DATA + MODULES)))
        elif pick < .35:
            rows.append({"do": "remove", "file": rng.choice(DATA + DATA + MODULES + ["s.py"])})
        elif pick < .52:
            rows.append({"do": "run", "args": rng.choice([[], [], ["x"]]), "opts": nw.run_options(rng) if rng.random() < .3 else []})
        elif pick < .52 + restores:
            rows.append({"do": "restore", "ref": rng.randrange(100), "how": rng.choice(["id", "id", "tag", "seq"]),
                         "opts": rng.choice([[], [], [], [], ["-s"], ["-l"], ["-a"], ["-s", "-a"], ["-l", "-a"]]),
                         "hit": rng.randrange(10 ** 6) if rng.random() < .12 else None})
        else:
            rows.append({"do": "file", "ref": rng.randrange(100), "name": rng.choice(["s.py"] + DATA * 2 + MODULES),
                         "by": rng.choice(["first", "number", "hash", "prefix", "time", "Btime", "Atime"]),
                         "pick": rng.randrange(1000), "target": rng.choice([None, None, "new/t.bin", "a.txt", "out 1"])})
    return rows


def edit(rng, name):
    if name == "s.py":
        return {"do": "edit", "file": name, "spec": actions(rng)}
    if name in MODULES:
        if rng.random() < .12:
            return {"do": "edit", "file": name, "data": ""}
        return {"do": "edit", "file": name, "data": rng.choice(["value = %d\n", "value = %d\r\n", "__version__ = '%d'\n",
                "import os\nopen('side.txt', 'a').close() if __name__ == 'never' else None\nv = %d\n"]) % rng.randrange(30)}
    return {"do": "edit", "file": name, "data": data_for(rng)}


def generate(rng, index):
    return {"layout": rng.choice(LAYOUTS), "name": rng.choice([None, None, None, "other", "s2.py"]),
            "steps": history(rng, rng.choice([4, 8, 12])),
            "engine": nw.pick_engine(rng, .1), "seed": rng.randrange(10 ** 6)}


def simplify(sc):
    for rows in c.drop_each(sc["steps"]):
        yield dict(sc, steps=rows)
    for key, plain in (("engine", "plain"), ("layout", "root"), ("name", None)):
        if sc[key] != plain:
            yield dict(sc, **{key: plain})
    for i, row in enumerate(sc["steps"]):
        less = []
        if row.get("opts"):
            less.append(dict(row, opts=[]))
        if row.get("hit") is not None:
            less.append(dict(row, hit=None))
        if row.get("spec"):
            spec = row["spec"]
            less += [dict(row, spec=dict(spec, acts=a)) for a in c.drop_each(spec["acts"])]
            less += [dict(row, spec=dict(spec, mods=m)) for m in c.drop_each(spec["mods"])]
            less += [dict(row, spec=dict(spec, acts=spec["acts"][:j] + [a[:2] + ["plain"] + a[3:]] + spec["acts"][j + 1:]))
                     for j, a in enumerate(spec["acts"]) if a[2] != "plain"]
        for one in less:
            yield dict(sc, steps=sc["steps"][:i] + [one] + sc["steps"][i + 1:])


class Play(object):
    """Carries out a history and keeps, per trial, what its files held."""

    def __init__(self, sc, world, out):
        self.sc, self.world, self.out = sc, world, out
        self.prefix = "" if sc["layout"] == "root" else "sub/"
        self.store = "" if sc["layout"] in ("root", "dir-dot") else "sub"
        self.spec = None
        self.kept = {}                 # trial -> {"files": {name: (kind, content)}, "accesses", "spec"}
        self.changed = 0
        self.count = 0
        self.script = sc["name"] or "s.py"

    # -------------------------------------------------------------- the disk
    def files(self):
        """The files of the folder of the script."""
        skip = (".noworkflow", "__pycache__")
        return self.world.files(skip=skip, sub="sub") if self.prefix else self.world.files(skip=skip)

    def others(self):
        if not self.prefix:
            return {}
        return dict((k, v) for k, v in self.world.files(skip=(".noworkflow", "__pycache__")).items()
                    if not k.startswith("sub/"))

    def hash(self, data):
        if self.sc["engine"] == "plain":
            return hashlib.sha1(data).hexdigest()
        return hashlib.sha1(b"blob %d\0" % len(data) + data).hexdigest()

    def now(self, cmd, *rest, **kw):
        """A command on the store of the project, as the layout calls it."""
        argv = [cmd]
        if self.sc["layout"] == "below-dir" and cmd != "run":
            argv += ["--dir", "sub"]
        elif self.sc["layout"] == "below":
            kw["cwd"] = "sub" if cmd != "run" else ""
        elif self.sc["layout"] == "dir-dot" and cmd == "run":
            argv += ["--dir", "."]
        self.count += 1
        kw.setdefault("seed", self.sc["seed"] + self.count)
        return nw.now(self.world, self.out, self.sc["engine"], *(argv + list(rest)), **kw)

    # ----------------------------------------------------------------- steps
    def step(self, row):
        self.world.clock.skew += 10 ** 9
        if row["do"] == "edit":
            if row["file"] == "s.py":
                self.spec = row["spec"]
                data = render(row["spec"], self.prefix)
            else:
                data = row["data"].encode()
            self.specs[data] = self.spec
            self.world.write(self.prefix + row["file"], data)
        elif row["do"] == "remove":
            self.world.remove(self.prefix + row["file"])
        elif row["do"] == "run":
            self.run(row)
        elif row["do"] == "restore":
            self.restore(row)
        else:
            self.one_file(row)

    specs = None

    def run(self, row):
        before = self.files()
        if "s.py" not in before:
            return
        spec = self.specs.get(before["s.py"])
        if spec is None or any(m not in before for m in mods_of(spec)):
            return
        known = set(t["id"] for t in self.dump().trials)
        opts = list(row["opts"])
        if self.sc["name"] and "--name" not in opts:
            opts += ["--name", self.sc["name"]]
        res = self.now("run", *(opts + [self.prefix + "s.py"] + row["args"]))
        db = self.dump()
        new = [t for t in db.trials if t["id"] not in known]
        fs, accesses = predict(spec, before)
        after = self.files()
        if len(new) != 1 or after != fs:
            self.out.violate("script", "the script did not do what it does in Python: %s, %d new trials, %s; %s" % (
                res.brief(), len(new), diff(after, fs), res.err[-300:]))
            return
        files = {}
        for name, first, _ in accesses:
            files.setdefault(name, ("access", first))
        for name in mods_of(spec):
            files[name] = ("module", before[name])
        files["s.py"] = ("script", before["s.py"])
        self.kept[new[0]["id"]] = {"files": files, "accesses": accesses, "script": new[0]["script"], "spec": spec}

    def dump(self):
        return nw.dump(self.world, self.store)

    def pick(self, row):
        """(trial, reference)"""
        db = self.dump()
        trials = [t for t in db.trials if t["id"] in self.kept]
        if not trials:
            return None, None
        trial = trials[row["ref"] % len(trials)]
        ref = trial["id"]
        if row.get("how") == "tag":
            ref = ([t["name"] for t in db["tag"] if t["trial_id"] == ref] + [ref])[0]
        elif row.get("how") == "seq":
            ref = str(trial["sequence_key"])
        return trial, ref

    def restore(self, row):
        trial, ref = self.pick(row)
        if trial is None:
            return
        argv = [ref] + row["opts"]
        if row["hit"] is not None:
            self.interrupted(row, argv)
        before, others = self.files(), self.others()
        res = self.now("restore", *argv)
        after = self.files()
        want = dict(before)
        skip = {"-s": "script", "-l": "module", "-a": "access"}
        skipped = [skip[o] for o in row["opts"]]
        for name, (kind, data) in self.kept[trial["id"]]["files"].items():
            if kind in skipped:
                continue
            want.pop(name, None)
            if data is not None:
                want[name] = data
        ok = res.status == "exit" and res.code == 0
        self.out.check(ok, "restore-fails", lambda: "restore %s: %s %s %s" % (argv, res.brief(), res.out[-200:], res.err[-300:]))
        self.out.check(not ok or after == want, "restored-files", lambda: "restore %s: %s; %s" % (
            argv, diff(after, want), res.out[-300:]))
        self.out.check(self.others() == others, "other-files", lambda: "restore %s: outside of the folder of the script %s" % (
            argv, diff(self.others(), others)))
        if after != before:
            self.changed += 1
            self.out.probe("restores")

    def interrupted(self, row, argv):
        """A killed restore first; the one afterwards must be exact anyway."""
        snap = self.world.snapshot()
        kinds = self.now("restore", *argv).kinds
        self.world.restore(snap)
        fault = c.pick_faults(random.Random(row["hit"]), kinds)
        if fault:
            self.now("restore", *argv, faults=[fault], seed=self.sc["seed"] + self.count)
            self.out.probe("interrupted")

    def one_file(self, row):
        trial, ref = self.pick(row)
        if trial is None:
            return
        info, name = self.kept[trial["id"]], row["name"]
        rows = []                      # contents in the order in which they are counted
        match = lambda n: n == name or n.endswith("/" + name)
        if match("s.py"):
            rows.append(info["files"]["s.py"][1])
        db = self.dump()
        for module in sorted((m for m in db.of("module", trial["id"])), key=lambda m: m["id"]):
            for mod in mods_of(info["spec"]):
                if module["path"] == self.world.path(self.prefix + mod) and match(mod):
                    rows.append(info["files"][mod][1])
        for path, one, two in info["accesses"]:
            if match(path) or ("/" + path).endswith("/" + name):
                rows += [one, two]
        argv, want = [], None
        if row["by"] in ("first", "number") or not info["accesses"]:
            number = 1 if row["by"] == "first" else 1 + row["pick"] % max(1, len(rows))
            if number > len(rows):
                return
            if row["by"] != "first":
                argv, want = ["-i", str(number)], rows[number - 1]
            else:
                want = rows[0]
        elif row["by"] in ("hash", "prefix"):
            some = sorted(set(d for _, d in info["files"].values() if d is not None))
            want = some[row["pick"] % len(some)]
            argv = ["-i", self.hash(want)[:12 if row["by"] == "prefix" else 40]]
        else:
            mine = sorted(db.of("file_access", trial["id"]), key=lambda r: r["id"])
            if len(mine) != len(info["accesses"]):
                return
            at = row["pick"] % len(mine)
            when = datetime.datetime.fromisoformat(trial["start"]) + datetime.timedelta(seconds=mine[at]["checkpoint"])
            name = mine[at]["name"]
            if name == trial["script"]:
                return
            want = info["accesses"][at][2 if row["by"] == "Atime" else 1]
            if any(r["name"] == name and r["checkpoint"] == mine[at]["checkpoint"] for r in mine[:at]):
                return
            argv = ["-i", {"time": "", "Btime": "B|", "Atime": "A|"}[row["by"]] + str(when)]
            if not row["target"] and posixpath.normpath(posixpath.join(self.world.path(self.prefix.rstrip("/")), name)) != \
                    self.world.path(self.prefix + info["accesses"][at][0]):
                return
        before, others = self.files(), self.others()
        base = self.prefix
        if row["target"]:
            argv += ["-t", row["target"]]
            if self.sc["layout"] in ("below-dir", "dir-dot"):
                base = ""                                # relative to the current folder
            place = base + row["target"]
        elif name != row["name"] or name.startswith("/"):
            place = self.prefix + info["accesses"][at][0]
        else:
            place = base + name
        res = self.now("restore", ref, "-f", *([name] + argv))
        wanted = dict(("sub/" + k if self.prefix else k, v) for k, v in before.items())
        wanted.update(others)
        wanted.pop(place, None)
        if want is not None:
            wanted[place] = want
        got = dict(("sub/" + k if self.prefix else k, v) for k, v in self.files().items())
        got.update(self.others())
        self.out.check(got == wanted, "one-file", lambda: "restore %s -f %s: %s (%s); %s %s" % (
            ref[:8], [name] + argv, diff(got, wanted), res.brief(), res.out[-200:], res.err[-200:]))
        self.out.probe("single-" + row["by"])


def diff(got, want):
    rows = []
    for name in sorted(set(got) | set(want)):
        if got.get(name) != want.get(name):
            rows.append("%s holds %s, not %s" % (name, brief(got.get(name)), brief(want.get(name))))
    return "; ".join(rows[:4])


def brief(data):
    return "nothing" if data is None else "%r (%d bytes)" % (data[-60:], len(data))


def execute(sc, env, out):
    world = env.world()
    play = Play(sc, world, out)
    play.specs = {}
    for row in sc["steps"]:
        play.step(row)
    out.probe("trials", len(play.kept))
    out.nontrivial = play.changed >= 1
    out.note(len(play.kept), play.changed, sorted(c.enc(v) for v in play.files().values()))
    out.signature = [sc["layout"], sc["name"], [s["do"][0] + str(s.get("file", s.get("ref", ""))) for s in sc["steps"]]]
