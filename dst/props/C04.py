"""The snapshot commits and collection keep every file of every trial."""
import hashlib
import os
import random
import re
import subprocess

from . import common as c
from . import nw
from .. import kernel as kernel_mod
from .. import native
from .. import target

ID = "C04"
LEVEL = "exploration"
NOTE = "histories of up to 8 runs, restores and collections; collections are killed at operations of git itself"
RUNS = {"quick": 130, "thorough": 3000}
AUDIT = 6
RULE = ("A case is a git engine and a history of runs of a generated script that reads and writes files with repeated, "
        "colliding, nested, hidden and outside names, of restores and of collections, in part after a month in which "
        "no file of the repository was touched, killed or failed at a sampled operation (for collections: of the git "
        "processes), or at the same time as runs. After each step git itself reads the branch: the old head is an "
        "ancestor, each newly finished run added one commit, whose tree holds every content that the rows of the trial "
        "name, below a path that belongs to the file. Every content of every finished trial is read back, by git and by "
        "the engine. Non-trivial: a collection of a repository with runs.")
REAL = c.REAL_ALL + ["git", "the scripts"]
STUBS = ["clock", "getrandom", "outcome of faulted system calls", "multiprocessing (parallel engines)",
         "age of files (set back)"]
ASSUMES = ["completed writes survive a crash (no power loss)",
           "a git process is not preempted by other processes while it runs"]

NAMES = ["a.txt", "d/a.txt", "e/d/a.txt", "a.txt - v2", "x", "x/y", "d/.git/info", " a.txt", "B.TXT", "\u00fcn\u00ef.txt",
         "../out/o.txt", "../p2/a.txt", "l" * 180 + ".txt", "s.py.txt", "noworkflow_root/q"]


def generate(rng, index):
    engine = rng.choice(["pygit", "sequential_pygit", "sequential_pygit", "sequential_dulwich", "sequential_dulwich", "gitdb", "gitdb",
                         "puregit", "puregit"] + (c.SCHEDULED + c.THREADED if rng.random() < .5 else []))
    rows = [script(rng), {"do": "run"}]
    for _ in range(rng.choice([2, 4, 6, 8])):
        pick = rng.random()
        hit = rng.randrange(10 ** 6) if rng.random() < .4 else None
        if pick < .2:
            rows.append(script(rng))
        elif pick < .5:
            rows.append({"do": "run", "hit": hit if rng.random() < .5 else None, "msg": rng.choice([None, None, "", "fix \u00e9\n\nmore"])})
        elif pick < .7:
            rows.append({"do": "gc", "hit": hit, "age": rng.random() < .5, "more": rng.random() < .2})
        elif pick < .78:
            rows.append({"do": "restore", "ref": rng.randrange(50), "hit": hit})
        else:
            rows.append({"do": "both", "what": rng.choice([["run", "gc"], ["run", "gc"], ["run", "run"], ["run", "run", "gc"]]),
                         "within": rng.choice([200, 400, 700, 1000, 1000]),
                         "seed": rng.randrange(10 ** 6), "age": rng.random() < .4, "more": rng.random() < .5})
    rows.append({"do": "gc", "hit": None, "age": rng.random() < .5, "more": False})
    return {"engine": engine, "steps": rows, "seed": rng.randrange(10 ** 6)}


def script(rng):
    return {"do": "edit", "acts": [[rng.choice(["read", "write", "write", "change", "change"]), rng.choice(NAMES), rng.randrange(12)]
                                   for _ in range(rng.choice([0, 2, 4, 7]))], "pad": rng.randrange(4)}


def render(step):
    rows = ["import os, shutil", "def use(kind, name, data):",
            "    folder = os.path.dirname(name)",
            "    if folder and os.path.isfile(folder):", "        os.remove(folder)",
            "    if folder:", "        os.makedirs(folder, exist_ok=True)",
            "    if os.path.isdir(name):", "        shutil.rmtree(name)",
            "    if kind != 'write' and os.path.exists(name):",
            "        with open(name, 'rb') as fil:", "            data = fil.read() + data",
            "    if kind != 'read':",
            "        with open(name, 'wb') as fil:", "            fil.write(data)"]
    for kind, name, data in step["acts"]:
        rows.append("use(%r, %s, b%r)" % (kind, ascii(name), "<%d>" % data * (data % 3 + 1)))
    rows.append("# %d" % step["pad"])
    return "\n".join(rows) + "\n"


def simplify(sc):
    for rows in c.drop_each(sc["steps"]):
        yield dict(sc, steps=rows)
    for i, row in enumerate(sc["steps"]):
        less = []
        if row.get("hit") is not None:
            less.append(dict(row, hit=None))
        if row.get("age"):
            less.append(dict(row, age=False))
        if row.get("msg") is not None:
            less.append(dict(row, msg=None))
        if row["do"] == "edit":
            less += [dict(row, acts=a) for a in c.drop_each(row["acts"])]
        if row["do"] == "both":
            less += [dict(row, what=w) for w in c.drop_each(row["what"]) if w]
        for one in less:
            yield dict(sc, steps=sc["steps"][:i] + [one] + sc["steps"][i + 1:])


# ------------------------------------------------------------------ processes
def dated(date, argv):
    """A command whose git processes date commits with the simulated clock."""
    for name in ("GIT_AUTHOR_DATE", "GIT_COMMITTER_DATE"):
        os.environ[name] = "%d +0000" % date
    return target.now(*argv)


def watched(date, argv, plan, counter, log, root):
    """The same, with its git processes under the simulator."""
    os.environ["LD_PRELOAD"] = native.library()
    os.environ["NWSIM_CHILD"] = ":".join([plan, counter, log, root])
    return dated(date, argv)


class Play(object):
    def __init__(self, sc, world, out):
        self.sc, self.world, self.out = sc, world, out
        self.count = 0
        self.gcs = 0
        self.cut = False

    def argv(self, *rest):
        return nw.argv_for(self.sc["engine"], rest)

    def call(self, argv, faults=(), watch=None):
        self.count += 1
        date = 1600000000 + 1000 * self.count
        kw = dict(faults=faults, seed=self.sc["seed"] + self.count, cwd="p", name="now-" + argv[0], rate=.05)
        if watch is None:
            return c.run(self.world, self.out, self.sc["engine"], dated, (date, self.argv(*argv)), **kw)
        counter, log = self.world.io + "/git.counter", self.world.io + "/git.log"
        with open(counter, "wb") as fil:
            fil.write(b"\0" * 4096)
        open(log, "wb").close()
        return c.run(self.world, self.out, self.sc["engine"], watched,
                     (date, self.argv(*argv), watch, counter, log, self.world.root), **kw)

    def git(self, *argv, **kw):
        env = {"PATH": os.environ["PATH"], "HOME": "/nonexistent", "GIT_CONFIG_NOSYSTEM": "1"}
        path = self.world.path("p/.noworkflow/content.git")
        res = subprocess.run(["git", "-c", "safe.directory=*", "-C", path] + list(argv), env=env, capture_output=True, **kw)
        return res

    def commits(self):
        """[(commit, tree, parents)], oldest first."""
        if not os.path.isdir(self.world.path("p/.noworkflow/content.git")):
            return []
        res = self.git("log", "--format=%H %T %P", "--reverse", "--topo-order", "refs/heads/master", "--")
        self.out.check(res.returncode == 0, "log", lambda: "the branch cannot be read: %s" % res.stderr[-300:].decode())
        rows = [line.split() for line in res.stdout.decode().splitlines()]
        return [(r[0], r[1], r[2:]) for r in rows]

    def tree(self, tree):
        """{hash: [paths]}"""
        found = {}
        for entry in self.git("ls-tree", "-r", "-z", tree).stdout.split(b"\0"):
            if entry:
                meta, path = entry.split(b"\t", 1)
                found.setdefault(meta.split()[2].decode(), []).append(path.decode("utf-8", "surrogateescape"))
        return found

    # ------------------------------------------------------------------ steps
    def age(self):
        """A month passes without changes to the repository."""
        old = os.stat(self.world.root).st_mtime - 40 * 86400
        for dirname, dirs, names in os.walk(self.world.path("p/.noworkflow")):
            for name in names + dirs:
                os.utime(os.path.join(dirname, name), (old, old), follow_symlinks=False)

    def step(self, number, row):
        world, out = self.world, self.out
        world.clock.skew += 10 ** 9
        if row["do"] == "edit":
            world.write("p/s.py", render(row))
            return
        if row.get("age"):
            self.age()
        before, heads = nw.dump(world, "p"), self.commits()
        where, faulted, what = "step %d, %s" % (number, row["do"]), False, row["do"]
        if what == "run":
            argv = ["run"] + (["--message", row["msg"]] if row.get("msg") is not None else []) + ["s.py"]
        elif what == "restore":
            if not before.trials:
                return
            argv = ["restore", before.trials[row["ref"] % len(before.trials)]["id"]]
        elif what == "gc":
            argv = ["gc"] + (["--aggressive"] if row["more"] else [])
            self.gcs += len(heads) > 1
        if what == "both":
            results = self.both(row)
        elif row.get("hit") is None:
            results = [self.call(argv)]
        else:
            results, where = self.hit(row, argv, where)
            faulted = True
        for res in results:
            out.check(res.status in ("exit", "crash"), "no-progress", lambda: "%s: %s" % (where, res.brief()))
            # git refuses to collect after a kill inside an earlier collection
            out.check(faulted or ("gc" in (what, res.name[4:]) and self.cut) or (res.ok and "Traceback" not in res.err), "fails",
                      lambda: "%s: %s %s %s" % (where, res.brief(), res.out[-200:], res.err[-900:]))
        self.judge(before, nw.dump(world, "p"), heads, where, faulted, what, results)

    def hit(self, row, argv, where):
        rng = random.Random(row["hit"])
        snap = self.world.snapshot()
        count = self.count
        if row["do"] == "gc" and rng.random() < .85:
            res = self.call(argv, watch="-1:0:0")
            with open(self.world.io + "/git.log") as fil:
                ops = [line.split("\t") for line in fil]
            self.world.restore(snap)
            self.count = count
            if not ops:
                return [self.call(argv)], where
            op = rng.randrange(len(ops))
            act, param = rng.choice([(native.CRASH_BEFORE, 0), (native.CRASH_AFTER, 0), (native.ERRNO, 28), (native.ERRNO, 5)])
            self.out.probe("git_faults")
            self.cut = True
            self.out.faults[{native.ERRNO: "error in git"}.get(act, "kill in git")] += 1
            where += ", git fault %s at %d" % (act, op)
            return [self.call(argv, watch="%d:%d:%d" % (op, act, param))], where
        kinds = self.call(argv).kinds
        self.world.restore(snap)
        self.count = count
        fault = c.pick_faults(rng, kinds, want=(lambda k: "content" in k[1]) if rng.random() < .6 else None)
        if fault is None:
            return [self.call(argv)], where
        return [self.call(argv, [fault])], where + ", %s at %s" % (fault, kinds[fault["op"]][:2])

    def both(self, row):
        from .. import mp
        mp.CPUS = 2
        ker = kernel_mod.Kernel(self.world, random.Random("k%s" % row["seed"]), .5)
        procs = []
        for what in row["what"]:
            self.count += 1
            if what == "gc" and procs:      # starts while the run is at work
                wait = random.Random("w%s" % row["seed"]).randrange(20, row.get("within", 700))
                ker.run(until=lambda k: procs[0].ops >= wait)
            argv = ["run", "s.py"] if what == "run" else ["gc"] + (["--aggressive"] if row.get("more") else [])
            procs.append(ker.spawn("now-" + what, dated, (1600000000 + 1000 * self.count, self.argv(*argv)), cwd="p"))
        ker.run()
        for proc in procs:
            if ker.outcome:
                proc.result.status = ker.outcome
            self.world.history.append(proc.result)
            self.out.proc(proc.result)
        self.out.stats["scheduler_steps"] += ker.steps
        self.out.stats["context_switches"] += ker.switches
        self.out.note("kernel", ker.steps, c.hash_trace(ker.trace))
        self.out.probe("concurrent")
        return [p.result for p in procs]

    # ------------------------------------------------------------------ oracle
    def judge(self, before, after, heads, where, faulted, what, results):
        out = self.out
        commits = self.commits()
        out.note(where, len(commits), len(after.trials))
        known = dict((row[0], row) for row in commits)
        for old in heads:
            out.check(old[0] in known, "ancestor", lambda: "%s: commit %s of the branch is gone" % (where, old[0]))
        chain = all(row[2] == ([commits[i - 1][0]] if i else []) for i, row in enumerate(commits))
        out.check(chain, "chain", lambda: "%s: not one line of commits: %s" % (where, [(r[0][:8], r[2]) for r in commits]))
        old = set(row[0] for row in heads)
        new = [row for row in commits if row[0] not in old]
        have = set(t["id"] for t in before.trials if t["finish"] is not None)
        fresh = [t for t in after.trials if t["finish"] is not None and t["id"] not in have]
        if what in ("run", "both") and not faulted:
            runs = len([r for r in results if r.name == "now-run"])
            new = new if heads else new[1:]
            out.check(len(new) == runs and len(fresh) == runs, "one-commit", lambda:
                      "%s: %d runs, %d new commits, %d finished trials" % (where, runs, len(new), len(fresh)))
        trees = [self.tree(row[1]) for row in new]
        for trial in fresh:
            if trial["status"] == "backup" or what == "restore":
                continue
            ids = nw.hashes(after, trial["id"])
            fits = [tree for tree in trees if all(i in tree for i in ids)]
            if out.check(fits, "in-tree", lambda: "%s: %s" % (where, self.missing(after, trial, trees))):
                self.paths(after, trial, fits[0], where)
        self.all_there(after, where)

    def missing(self, db, trial, trees):
        rows = [(a["name"], a[k]) for a in db.of("file_access", trial["id"])
                for k in ("content_hash_before", "content_hash_after") if a[k]]
        rows += [("code", b["code_hash"]) for b in db.of("code_block", trial["id"]) if b["code_hash"]]
        best = max(trees, key=lambda t: len([r for r in rows if r[1] in t])) if trees else {}
        return "no new commit of %d holds %s" % (len(trees), [r for r in rows if r[1] not in best][:4])

    def paths(self, db, trial, tree, where):
        rows = [(a["name"], a[k]) for a in db.of("file_access", trial["id"])
                for k in ("content_hash_before", "content_hash_after") if a[k]]
        rows.append(("s.py", nw.main_hash(db, trial)))
        for name, ident in rows:
            self.out.check(any(self.fits(name, path) for path in tree[ident]), "path",
                           lambda: "%s: content %s of %r is only below %s" % (where, ident, name, tree[ident]))

    def fits(self, name, path):
        """Is this a path for the file?"""
        if self.sc["engine"] == "gitdb":
            return bool(re.match("^[0-9a-f]{40}( - v[0-9]+)?$", path))
        outside = name.startswith("../") or os.path.isabs(name)
        if outside:
            if not path.startswith("noworkflow_"):
                return False
            name, path = os.path.basename(name), os.path.basename(path)
        want = "/".join("_" + p if p == ".git" else p for p in name.strip().split("/"))
        return re.match("^" + re.escape(want) + "( - v[0-9]+)*$", path) is not None

    def wanted(self, db):
        ids = set()
        for trial in db.trials:
            if trial["finish"] is not None:
                ids.update(nw.hashes(db, trial["id"]))
        return sorted(ids)

    def all_there(self, db, where):
        ids = self.wanted(db)
        if not ids:
            return
        res = self.git("cat-file", "--batch", input="\n".join(ids).encode() + b"\n")
        data, lost = res.stdout, []
        for ident in ids:
            head, _, data = data.partition(b"\n")
            cols = head.split()
            if len(cols) != 3 or cols[1] != b"blob":
                lost.append((ident, head))
                continue
            body, data = data[:int(cols[2])], data[int(cols[2]) + 1:]
            if hashlib.sha1(b"blob %d\0" % len(body) + body).hexdigest() != ident:
                lost.append((ident, body[:40]))
        self.out.check(not lost, "lost", lambda: "%s: %d of %d contents of finished trials are not there: %s" % (
            where, len(lost), len(ids), lost[:3]))

    def read_all(self, where):
        ids = self.wanted(nw.dump(self.world, "p"))
        res = c.run(self.world, self.out, self.sc["engine"], nw.read_contents, (self.sc["engine"], ids), cwd="p", rate=.05)
        got = res.value or {}
        bad = [(i, got.get(i)) for i in ids if not isinstance(got.get(i), bytes) or
               hashlib.sha1(b"blob %d\0" % len(got[i]) + got[i]).hexdigest() != i]
        self.out.check(not bad, "unreadable", lambda: "%s: the engine reads %s %s" % (where, bad[:3], res.err[-500:]))


def execute(sc, env, out):
    world = env.world()
    for name in ("p/keep", "out/keep", "p2/keep"):
        world.write(name, "keep\n")
    world.write("p/s.py", render({"acts": [], "pad": 0}))
    play = Play(sc, world, out)
    for number, row in enumerate(sc["steps"]):
        play.step(number, row)
        if row["do"] == "gc":
            play.read_all("after step %d" % number)
    out.nontrivial = play.gcs > 0
    out.signature = [sc["engine"], out.log]
