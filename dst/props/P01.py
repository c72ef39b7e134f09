"""Push, pull and import bring each store to the union of what was shared."""
import random

from . import common as c
from . import hist
from . import nw
from . import share

ID = "P01"
LEVEL = "exploration"
NOTE = "one server and two other machines, up to 9 steps with at most 2 transfers at a time"
RUNS = {"quick": 110, "thorough": 3000}
AUDIT = 6
RULE = ("A case is three machines with stores of the same kind and a history of runs and restores, of pushes, pulls and imports, "
        "alone, two at a time or next to a run, and of collections after a month. Requests and replies are messages that "
        "are delayed, refused, lost, answered late or with 503, delivered twice or left without a reply; operations of "
        "clients and of the server fail or crash their machine; the server restarts, and is killed after each step. After "
        "each step, a transfer that reported success has brought every finished trial that its sender had, equal in all "
        "facts and with all contents; no store lost or changed anything, or holds anything twice. A transfer without "
        "faults succeeds. In the end, each machine pushes, then pulls, and all stores are equal. Non-trivial: a fault "
        "fired in a transfer, or two commands ran at a time.")
REAL = c.REAL_ALL + ["requests down to its transport", "Flask application", "push, pull, import", "git"]
STUBS = ["network", "WSGI server loop", "clock", "getrandom", "host and user name", "multiprocessing (git stores)",
         "outcome of faulted system calls"]
ASSUMES = ["completed writes survive a crash (no power loss)", "the server handles one request at a time",
           "all stores are of the same kind (plain or git): hashes differ between kinds"]

ACTS = ["refuse", "lost", "noreply", "dup", "dup", "late", "503", "503"]


def plan(rng, count=None):
    rows = []
    for _ in range(rng.choice([1, 1, 2, 3]) if count is None else count):
        rows.append({"n": rng.choice([0, 1, 2, 3, rng.randrange(14)]), "act": rng.choice(ACTS), "ms": rng.choice([5, 60, 300])})
    return rows


def generate(rng, index):
    rows = []
    for name in ("m1", "m2"):
        if rng.random() < .8:
            rows.append({"do": "run", "on": name, "ver": rng.randrange(14), "data": rng.randrange(4)})
    if rng.random() < .5:
        for on, do in (("m1", "push"), ("m2", "pull")):
            rows.append({"do": "exchange", "ops": [[on, do]], "net": plan(rng) if rng.random() < .7 else [],
                         "hit": None, "ver": rng.randrange(14)})
    for _ in range(rng.choice([2, 4, 6])):
        pick, on = rng.random(), rng.choice(["m1", "m2"])
        if pick < .25:
            rows.append({"do": "run", "on": on, "ver": rng.randrange(14), "data": rng.randrange(4),
                         "hit": rng.randrange(10 ** 6) if rng.random() < .25 else None})
        elif pick < .3:
            rows.append({"do": "restore", "on": on, "ver": rng.randrange(14), "pick": rng.randrange(100)})
        elif pick < .35:
            rows.append({"do": "gc", "on": rng.choice(["m0", "m1", "m2"])})
        elif pick < .45:
            rows.append({"do": "import", "on": on, "from": rng.choice(["m1", "m2", "m0"]),
                         "hit": rng.randrange(10 ** 6) if rng.random() < .4 else None})
        else:
            ops = [[on, rng.choice(["push", "pull"])]]
            if rng.random() < .3:
                other = {"m1": "m2", "m2": "m1"}[on]
                ops.append(rng.choice([[other, "push"], [other, "pull"], [on, "push"], [on, "run"], [on, "run"]]))
            rows.append({"do": "exchange", "ops": ops, "net": plan(rng) if rng.random() < .55 else [],
                         "hit": rng.randrange(10 ** 6) if rng.random() < .3 else None, "ver": rng.randrange(14),
                         "slow": rng.random() < .5})
    return {"kind": rng.choice(["plain", "plain", "git"]), "steps": rows, "seed": rng.randrange(10 ** 6)}


def simplify(sc):
    for rows in c.drop_each(sc["steps"]):
        yield dict(sc, steps=rows)
    if sc["kind"] != "plain":
        yield dict(sc, kind="plain")
    for i, row in enumerate(sc["steps"]):
        less = []
        if row.get("hit") is not None:
            less.append(dict(row, hit=None))
        if row["do"] == "exchange":
            less += [dict(row, net=n) for n in c.drop_each(row["net"])]
            less += [dict(row, ops=o) for o in c.drop_each(row["ops"]) if o]
        if row.get("ver"):
            less.append(dict(row, ver=0))
        for one in less:
            yield dict(sc, steps=sc["steps"][:i] + [one] + sc["steps"][i + 1:])


class Play(object):
    def __init__(self, sc, world, out):
        self.sc, self.world, self.out = sc, world, out
        self.m = share.Machines(world, out, sc["kind"], sc["seed"])
        self.m.create()
        self.busy = 0

    def install(self, name, row):
        slow = "import time\ntime.sleep(.5)\n" if row.get("slow") else ""
        self.world.write(name + "/s.py", slow + hist.text_of("s.py", row["ver"]))
        self.world.write(name + "/mod.py", hist.text_of("mod.py", row["ver"] % 3))
        self.world.write(name + "/data.txt", hist.text_of("data.txt", row.get("data", 0)))

    def step(self, number, row):
        m, what = self.m, row["do"]
        where = "step %d, %s" % (number, what)
        before = dict((n, m.dump(n)) for n in m.names)
        done, faulted = [], bool(row.get("net"))
        if what == "run":
            self.install(row["on"], row)
            done.append((self.local(row, ["run", "s.py"]), None, None))
            faulted = row.get("hit") is not None
        elif what == "restore":
            ids = m.finished(before[row["on"]]) if before[row["on"]].exists else []
            if not ids:
                return
            self.install(row["on"], row)                 # an edit in between: restore makes a backup of it
            done.append((m.run(row["on"], ["restore", ids[row["pick"] % len(ids)]]), None, None))
        elif what == "gc":
            if not before[row["on"]].trials:
                return
            self.age(row["on"])
            done.append((m.run(row["on"], ["gc"]), None, None))
        elif what == "import":
            if row["from"] == row["on"] or not before[row["from"]].exists:
                return
            done.append((self.local(row, None), row["from"], row["on"]))
            faulted = row.get("hit") is not None
        else:
            for name, _ in row["ops"]:
                self.install(name, row)
            ops = [(n, ["run", "s.py"] if w == "run" else w) for n, w in row["ops"]]
            faults, server = self.pick(row, ops)
            if faults or server:
                where += ", %s at client, %s at server" % (faults, server)
            faulted = faulted or bool(faults or server)
            results = m.exchange(ops, row["net"], faults, server)
            where += ", %s, net %s" % (row["ops"], [r for r in m.net.log if r[3]])
            for res, (name, w) in zip(results, row["ops"]):
                ends = {"push": (name, "m0"), "pull": ("m0", name), "run": (None, None)}[w]
                done.append((res,) + ends)
            self.busy += len(ops) > 1 or bool(m.net.fired) or faulted
        after = dict((n, m.dump(n)) for n in m.names)
        for res, source, dest in done:
            self.out.check(res.status in ("exit", "crash"), "no-progress", lambda: "%s: %s" % (where, res.brief()))
            kind = res.name[4:]
            said = share.SUCCESS.get(kind)
            success = said is not None and said in (res.out or "")
            self.out.note(kind, success, res.status)
            if not faulted:
                good = success if said else res.code in (0, 1, 3) and "noworkflow/now" not in res.err
                self.out.check(good, "fails", lambda: "%s: %s %s %s" % (where, res.brief(), res.out[-300:], res.err[-900:]))
            if success:
                self.out.probe("successes")
                self.received(where, source, dest, before[source], after[dest])
        for name in m.names:
            self.kept(where, name, before[name], after[name])

    def local(self, row, argv):
        """A run or an import, possibly with a fault in its middle."""
        m = self.m

        def call(faults=()):
            if argv is None:
                return m.bring(row["from"], row["on"], faults)
            return m.run(row["on"], argv, faults)
        if row.get("hit") is None:
            return call()
        rng = random.Random(row["hit"])
        snap, count = self.world.snapshot(), m.count
        kinds = call().kinds
        self.world.restore(snap)
        m.count = count
        fault = c.pick_faults(rng, kinds, want=lambda k: ".noworkflow" in k[1])
        return call([fault] if fault else [])

    def pick(self, row, ops):
        """A fault of the first client or of the server."""
        if row.get("hit") is None:
            return [], []
        rng = random.Random(row["hit"])
        snap, count = self.world.snapshot(), self.m.count
        first = self.m.exchange(ops, row["net"])[0]
        kinds, serving = first.kinds, self.m.servers[0].kinds
        self.world.restore(snap)
        self.m.count = count
        at_server = serving and (rng.random() < .6 or not kinds)
        fault = c.pick_faults(rng, serving if at_server else kinds,
                              want=(lambda k: ".noworkflow" in k[1]) if rng.random() < .7 else None)
        if fault is None:
            return [], []
        return ([], [fault]) if at_server else ([fault], [])

    def age(self, name):
        import os
        old = os.stat(self.world.root).st_mtime - 40 * 86400
        for dirname, dirs, names in os.walk(self.world.path(name, ".noworkflow")):
            for each in names + dirs:
                os.utime(os.path.join(dirname, each), (old, old), follow_symlinks=False)

    # ------------------------------------------------------------------ oracle
    def received(self, where, source, dest, old, new):
        """Success: everything the sender had is at the receiver."""
        m, out = self.m, self.out
        sent = m.finished(old)
        if source == "m0" and dest != "m0" and ", import" not in where:
            sent = [t["id"] for t in old.trials if t["finish"] is not None and t["experiment_id"] == m.experiments[0]]
        have = set(t["id"] for t in new.trials)
        gone = [i for i in sent if i not in have]
        out.check(not gone, "not-received", lambda: "%s: %s reported success, but %s has not %s" % (where, source, dest, gone))
        for ident in sent:
            if ident in have:
                text = nw.diff_facts(m.facts(old, ident), m.facts(new, ident))
                out.check(text is None, "changed", lambda: "%s: trial %s of %s at %s: %s" % (where, ident, source, dest, text))
        bad = m.lost(dest, m.contents(old, sent))
        out.check(not bad, "no-content", lambda: "%s: success, but %s lacks contents of %s: %s" % (where, dest, source, bad[:3]))

    def kept(self, where, name, old, new):
        """No store lost, changed or repeated anything."""
        m, out = self.m, self.out
        ids = m.finished(old)
        have = set(t["id"] for t in new.trials)
        gone = [i for i in ids if i not in have]
        out.check(not gone, "lost-trial", lambda: "%s: %s lost %s" % (where, name, gone))
        for ident in ids:
            if ident in have:
                text = nw.diff_facts(m.own(old, ident), m.own(new, ident))
                out.check(text is None, "changed-there", lambda: "%s: trial %s of %s: %s" % (where, ident, name, text))
        bad = self.m.lost(name, m.contents(new, [i for i in ids if i in self.whole(name)]))
        out.check(not bad, "lost-content", lambda: "%s: %s lost contents: %s" % (where, name, bad[:3]))
        m.once(new, where + ", " + name)
        self.held[name] = set(i for i in m.finished(new) if not m.lost(name, m.contents(new, [i])))

    held = None

    def whole(self, name):
        """Trials of this store that had all contents after the last step."""
        return self.held.get(name, set())

    # --------------------------------------------------------------------- end
    def settle(self):
        """After the faults: all stores become equal."""
        m, out = self.m, self.out
        everything = {}
        for name in m.names:
            db = m.dump(name)
            for ident in m.finished(db):
                everything.setdefault(ident, (name, db))
        rows = [["m1", "push"], ["m2", "push"], ["m1", "pull"], ["m2", "pull"]]
        for index, row in enumerate(rows):
            self.step(100 + index, {"do": "exchange", "ops": [row], "net": [], "ver": 0})
        for name in m.names:
            db = m.dump(name)
            gone = [i for i in everything if i not in m.finished(db)]
            out.check(not gone, "not-equal", lambda: "in the end %s lacks %s" % (name, gone))
            for ident, (first, old) in everything.items():
                if ident not in gone:
                    text = nw.diff_facts(m.facts(old, ident), m.facts(db, ident))
                    out.check(text is None, "not-equal", lambda: "in the end %s of %s at %s: %s" % (ident, first, name, text))
            bad = m.lost(name, m.contents(db, [i for i in everything if i not in gone]))
            out.check(not bad, "no-content", lambda: "in the end %s lacks %s" % (name, bad[:3]))


def execute(sc, env, out):
    play = Play(sc, env.world(), out)
    play.held = {}
    for number, row in enumerate(sc["steps"]):
        play.step(number, row)
    play.settle()
    out.nontrivial = play.busy > 0
    out.signature = [sc["kind"], out.log]
