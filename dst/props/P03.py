"""A received trial is complete or not there at all."""
import random

from . import common as c
from . import hist
from . import nw
from . import share

ID = "P03"
LEVEL = "exploration"
NOTE = "up to 5 trials per transfer, 3 to 5 sampled points of interruption for each, then a transfer without faults"
RUNS = {"quick": 130, "thorough": 2500}
AUDIT = 6
RULE = ("A case prepares machines with trials of runs, some killed in their middle, some already shared, and one transfer "
        "(push, pull or import), and repeats it from that state with a fault each time: a crash, I/O error, full disk or "
        "short write at a sampled operation of the receiver or sender, a request or reply lost, repeated, late or refused, "
        "or a kill of the client while the server goes on. After each, every trial in the receiving store is one that was "
        "there, unchanged, or one of the sender, equal in all rows, and if it finished with one automatic tag, its contents "
        "and a complete record. A transfer without faults "
        "then brings all of them. Non-trivial: a fault fired.")
REAL = c.REAL_ALL + ["requests down to its transport", "Flask application", "push, pull, import", "git"]
STUBS = ["network", "WSGI server loop", "clock", "getrandom", "host and user name", "multiprocessing (git stores)",
         "outcome of faulted system calls"]
ASSUMES = ["completed writes survive a crash (no power loss)",
           "all stores are of the same kind (plain or git): hashes differ between kinds"]
ACTS = ["lost", "noreply", "noreply", "dup", "late", "503", "refuse"]


def generate(rng, index):
    rows = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        rows.append({"ver": rng.randrange(14), "data": rng.randrange(4),
                     "save": rng.choice([[], [], ["-s", "1", "-S", "1"]]),
                     "kill": rng.randrange(10 ** 6) if rng.random() < .2 else None})
    faults = []
    for _ in range(rng.choice([3, 4, 5])):
        how = rng.choice(["receiver", "receiver", "receiver", "sender", "net"])
        row = {"how": how, "pick": rng.randrange(10 ** 6)}
        if how == "net":
            row = {"how": how, "net": [{"n": rng.randrange(12), "act": rng.choice(ACTS), "ms": rng.choice([5, 300])}]}
        faults.append(row)
    return {"kind": rng.choice(["plain", "plain", "git"]), "do": rng.choice(["push", "push", "pull", "import"]),
            "runs": rows, "shared": rng.choice([0, 0, 1]), "own": rng.choice([0, 0, 1]), "faults": faults,
            "twice": rng.random() < .3, "seed": rng.randrange(10 ** 6)}


def simplify(sc):
    for rows in c.drop_each(sc["faults"]):
        if rows:
            yield dict(sc, faults=rows)
    for rows in c.drop_each(sc["runs"]):
        if rows:
            yield dict(sc, runs=rows)
    for key, value in (("kind", "plain"), ("shared", 0), ("own", 0), ("twice", False)):
        if sc[key] != value:
            yield dict(sc, **{key: value})
    for i, row in enumerate(sc["runs"]):
        if row["kill"] is not None:
            yield dict(sc, runs=sc["runs"][:i] + [dict(row, kill=None)] + sc["runs"][i + 1:])


class Play(object):
    def __init__(self, sc, world, out):
        self.sc, self.world, self.out = sc, world, out
        self.m = m = share.Machines(world, out, sc["kind"], sc["seed"])
        m.create()
        do = sc["do"]
        self.sender, self.receiver = {"push": ("m1", "m0"), "pull": ("m0", "m2"), "import": ("m1", "m2")}[do]
        for number, row in enumerate(sc["runs"]):
            self.run("m1", row)
            if number < sc["shared"]:
                if do == "import":
                    m.bring("m1", "m2")
                else:
                    m.exchange([("m1", "push")])
                    if do == "pull":
                        m.exchange([("m2", "pull")])
        if sc["own"]:
            self.run(self.receiver, {"ver": 3, "data": 9, "save": [], "kill": None})
        if do == "pull":
            m.exchange([("m1", "push")])

    def run(self, name, row):
        for path, ver in (("s.py", row["ver"]), ("mod.py", row["ver"] % 3), ("data.txt", row["data"])):
            self.world.write(name + "/" + path, hist.text_of(path, ver))
        argv = ["run"] + row["save"] + ["s.py"]
        if row["kill"] is None:
            return self.m.run(name, argv)
        snap, count = self.world.snapshot(), self.m.count
        kinds = self.m.run(name, argv).kinds
        self.world.restore(snap)
        self.m.count = count
        fault = c.pick_faults(random.Random(row["kill"]), kinds, crash=1, errors=0, want=lambda k: ".noworkflow" in k[1])
        return self.m.run(name, argv, [fault] if fault else [])

    def transfer(self, net=(), faults=(), server=()):
        """-> (client's result, its kinds, the server's kinds)."""
        if self.sc["do"] == "import":
            res = self.m.bring("m1", "m2", faults)
            return res, res.kinds, []
        ops = [(self.receiver if self.sc["do"] == "pull" else self.sender, self.sc["do"])]
        res = self.m.exchange(ops, net, faults, server)[0]
        return res, res.kinds, self.m.servers[0].kinds

    def go(self):
        sc, m, out = self.sc, self.m, self.out
        source, old = m.dump(self.sender), m.dump(self.receiver)
        if not source.exists:
            return
        start, count = self.world.snapshot(), m.count
        _, mine, theirs = self.transfer()
        self.world.restore(start)
        had = set(m.finished(old)) if old.exists else set()
        for number, row in enumerate(sc["faults"]):
            where = "%s, fault %d" % (sc["do"], number)
            m.count = count
            net, client, server = row.get("net", ()) if sc["do"] != "import" else (), [], []
            if row["how"] != "net":
                at_client = sc["do"] == "import" or (row["how"] == "sender") == (sc["do"] == "push")
                rng = random.Random(row["pick"])
                fault = c.pick_faults(rng, mine if at_client else theirs,
                                      want=(lambda k: ".noworkflow" in k[1]) if rng.random() < .85 else None)
                if fault is None:
                    continue
                (client if at_client else server).append(fault)
                where += " %s at the %s" % (fault, "client" if at_client else "server")
            res = self.transfer(net, client, server)[0]
            where += " net %s: %s" % ([r for r in m.net.log if r[3]] if net else [], res.brief())
            out.check(res.status in ("exit", "crash"), "no-progress", lambda: where)
            out.nontrivial = True
            self.look(where, source, old, had)
            if sc["twice"] and number == 0:
                self.transfer(net, client, server)
                self.look("again " + where, source, old, had)
            self.settle("after " + where, source, old, had)
            self.world.restore(start)

    def look(self, where, source, old, had):
        """Only whole trials."""
        m, out = self.m, self.out
        new = m.dump(self.receiver)
        if not new.exists:
            out.check(not had, "lost", lambda: "%s: no database" % where)
            return new
        sent = set(t["id"] for t in source.trials)       # those that did not finish are copied as they are
        for trial in new.trials:
            ident = trial["id"]
            if ident in had:
                text = nw.diff_facts(m.own(old, ident), m.own(new, ident))
                out.check(text is None, "changed", lambda: "%s: trial %s: %s" % (where, ident, text))
            elif ident in sent:
                out.probe("received")
                text = nw.diff_facts(m.facts(source, ident), m.facts(new, ident))
                out.check(text is None, "part", lambda: "%s: trial %s is incomplete: %s" % (where, ident, text))
                if trial["finish"] is None:
                    continue
                bad = m.lost(self.receiver, m.contents(source, [ident]))
                out.check(not bad, "no-content", lambda: "%s: trial %s lacks contents %s" % (where, ident, bad[:3]))
                tags = [t for t in new.of("tag", ident) if t["type"] == "AUTO"]
                out.check(len(tags) == 1, "tag", lambda: "%s: trial %s has tags %s" % (where, ident, tags))
                bad = [b for b in nw.broken(new, trial) if b[0] != "dangling-trial.parent_id"]
                out.check(not bad, "part", lambda: "%s: trial %s: %s" % (where, ident, bad))
            else:
                known = old.exists and ident in [t["id"] for t in old.trials]
                out.check(known, "part", lambda: "%s: %s is in the store, unfinished or unknown" % (where, ident))
        gone = had - set(t["id"] for t in new.trials)
        out.check(not gone, "lost", lambda: "%s: lost %s" % (where, gone))
        for table in nw.TABLES[1:-2]:
            ids = set(t["id"] for t in new.trials)
            lone = [dict(r) for r in new[table] if r["trial_id"] not in ids]
            out.check(not lone, "part", lambda: "%s: %s of no trial: %s" % (where, table, lone[:2]))
        m.once(new, where)
        return new

    def settle(self, where, source, old, had):
        """A later transfer brings the rest."""
        m, out = self.m, self.out
        res = self.transfer()[0]
        out.check(share.SUCCESS[self.sc["do"]] in (res.out or ""), "later-fails",
                  lambda: "%s, later: %s %s %s" % (where, res.brief(), res.out[-300:], res.err[-900:]))
        new = self.look(where, source, old, had)
        absent = set(m.finished(source)) - set(t["id"] for t in new.trials)
        out.check(not absent, "absent", lambda: "%s: a later transfer did not bring %s" % (where, absent))
        out.probe("repaired")


def execute(sc, env, out):
    Play(sc, env.world(), out).go()
    out.signature = [sc["kind"], sc["do"], out.log]
