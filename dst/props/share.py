"""Several machines of one world that exchange trials: m0 serves, the others push and pull."""
import hashlib
import json
import os
import random
import subprocess

from . import common as c
from . import nw
from .. import kernel as kernel_mod
from .. import mp
from .. import net as net_mod
from .. import target

#: what the receiving store assigns itself
ASSIGNED = {"trial": ["sequence_key", "experiment_id"]}
SUCCESS = {"push": "Pushed successfully", "pull": "Pulled successfully", "import": "Imported successfully"}


def command(name, *argv):
    """A command on a machine."""
    net_mod.install_client()
    net_mod.machine(name)
    return target.now(*argv)


def admin(host, engine, message):
    """One request to the server, by the server's machine itself."""
    from noworkflow.now.persistence import persistence_config
    net_mod.machine(host)
    persistence_config.content_engine = engine
    persistence_config.connect(".")
    from noworkflow.now.vis.views import app
    return net_mod.open_app(app, message)


class Machines(object):
    def __init__(self, world, out, kind, seed, names=("m0", "m1", "m2")):
        self.world, self.out, self.kind, self.seed, self.names = world, out, kind, seed, names
        self.engine = "plain" if kind == "plain" else "sequential_pygit"
        self.count = 0
        for name in names:
            world.write(name + "/keep", "keep\n")
            if kind == "plain":              # the kind that commands find and use
                os.makedirs(world.path(name, ".noworkflow", "content"))
        self.experiments = []

    # ------------------------------------------------------------------ local
    def create(self, name="exp"):
        body = json.dumps({"name": name, "description": "d"}).encode()
        message = ("POST", "/experiments", [("Content-Type", "application/json")], body)
        res = c.run(self.world, self.out, self.engine, admin, ("m0", self.engine, message), cwd="m0", name="admin")
        self.out.check(res.ok and res.value and res.value[0] == 201, "create-experiment",
                       lambda: "%s %s %s" % (res.brief(), res.value, res.err[-500:]))
        self.experiments.append(json.loads(res.value[2])["id"])

    def run(self, name, argv, faults=()):
        """A command that does not talk to others."""
        self.count += 1
        self.world.clock.skew += 10 ** 9
        kw = dict(faults=faults, seed=self.seed + self.count, cwd=name, name="now-" + argv[0])
        return c.run(self.world, self.out, self.engine, command, (name,) + tuple(nw.argv_for(self.engine, argv)), **kw)

    def local(self, name, argv, faults=()):
        """import: runs with the default engine, next to the kernel if it has processes."""
        self.count += 1
        kw = dict(faults=faults, seed=self.seed + self.count, cwd=name, name="now-" + argv[0], cpus=1)
        mode = "plain" if self.kind == "plain" else "distributed_pygit"
        return c.run(self.world, self.out, mode, command, (name,) + tuple(argv), **kw)

    def bring(self, source, dest, faults=()):
        return self.local(dest, ["import", "--source", self.world.path(source), "--target", self.world.path(dest)], faults)

    # --------------------------------------------------------------- transfer
    def exchange(self, ops, plan=(), faults=(), server_faults=(), stick=.6, experiment=0):
        """ops: [(machine, "push"/"pull"/argv list)], all at the same time.

        The server restarts after a crash, and is killed in the end: what it
        acknowledged must be there for its successor."""
        world, out = self.world, self.out
        mp.CPUS = 1
        self.count += 1
        seed = "%s-%s" % (self.seed, self.count)
        net = net_mod.Net(random.Random("n" + seed), plan)
        ker = kernel_mod.Kernel(world, random.Random("k" + seed), stick, net=net)
        state = {"closing": False, "starts": 0}
        servers = []

        def start():
            proc = ker.spawn("vis", net_mod.serve, ("m0", "plain" if self.kind == "plain" else None),
                             faults=server_faults if not state["starts"] else (), cwd="m0")
            state["starts"] += 1
            net.hosts["m0"] = 1
            ker.on_exit[proc.number] = ended
            servers.append(proc)

        def ended(_, proc):
            net.died(ker, proc)
            if state["closing"]:
                return
            if state["starts"] < 4:
                start()
            else:
                net.down(ker, "m0")

        start()
        clients = []
        for index, (name, what) in enumerate(ops):
            url = "http://m0/experiments/%s" % self.experiments[experiment]
            argv = [what, "--url", url] if isinstance(what, str) else nw.argv_for(self.engine, what)
            clients.append(ker.spawn("now-" + argv[0], command, (name,) + tuple(argv), cwd=name,
                                     faults=faults if not index else ()))
        ker.run(until=lambda k: not any(p.alive for p in clients))
        state["closing"] = True
        status = ker.outcome
        ker.shutdown()
        results = []
        for proc in clients + servers:
            if status and proc in clients and proc.result.status not in ("exit", "crash"):
                proc.result.status = status
            world.history.append(proc.result)
            proc.result.kinds = proc.kinds
            if proc in clients:
                out.proc(proc.result)
                results.append(proc.result)
        for act, count in net.fired.items():
            out.faults["net " + act] += count
        if server_faults and any(p.machine_crash for p in servers):
            out.faults["server crash"] += 1
        out.stats["messages"] += net.count
        out.stats["scheduler_steps"] += ker.steps
        out.stats["context_switches"] += ker.switches
        out.note("kernel", ker.steps, c.hash_trace(ker.trace))
        self.net, self.servers, self.ker = net, servers, ker
        return results

    # ----------------------------------------------------------------- oracle
    def dump(self, name):
        return nw.dump(self.world, name)

    def finished(self, db):
        return [t["id"] for t in db.trials if t["finish"] is not None]

    def facts(self, db, ident, number=False):
        """What a trial has to be equal in, on every machine."""
        found = db.facts(ident)
        for table in ("tag", "head"):
            found.pop(table, None)
        row = [dict(t) for t in db.trials if t["id"] == ident][0]
        for key in ASSIGNED["trial"]:
            if not number:
                row.pop(key, None)
        found["trial"] = [repr(sorted(row.items()))]
        user = [u for u in db["user"] if u["id"] == row["user_id"]]
        found["user"] = [repr(sorted(u.items())) for u in user]
        return found

    def own(self, db, ident):
        """Facts that stay as they are in one store."""
        found = self.facts(db, ident, number=True)
        found["tag"] = sorted(repr(sorted(t.items())) for t in db.of("tag", ident))
        return found

    def lost(self, name, ids):
        """[(id, why)] of the contents that this store does not have."""
        bad = []
        if self.kind == "plain":
            for ident in ids:
                try:
                    with open(self.world.path(name, ".noworkflow", "content", ident[:2], ident[2:]), "rb") as fil:
                        data = fil.read()
                except OSError:
                    bad.append((ident, "missing"))
                    continue
                if hashlib.sha1(data).hexdigest() != ident:
                    bad.append((ident, data[:40]))
            return bad
        env = {"PATH": os.environ["PATH"], "HOME": "/nonexistent", "GIT_CONFIG_NOSYSTEM": "1"}
        res = subprocess.run(["git", "-c", "safe.directory=*", "-C", self.world.path(name, ".noworkflow/content.git"),
                              "cat-file", "--batch"], env=env, capture_output=True, input="\n".join(ids).encode() + b"\n")
        data = res.stdout
        for ident in ids:
            head, _, data = data.partition(b"\n")
            cols = head.split()
            if len(cols) != 3 or cols[1] != b"blob":
                bad.append((ident, head))
                continue
            body, data = data[:int(cols[2])], data[int(cols[2]) + 1:]
            if hashlib.sha1(b"blob %d\0" % len(body) + body).hexdigest() != ident:
                bad.append((ident, body[:40]))
        return bad

    def contents(self, db, idents):
        ids = set()
        for ident in idents:
            ids.update(i for i in nw.hashes(db, ident) if i)
        return sorted(ids)

    def once(self, db, where, key="twice"):
        """Every trial, and every item of it, exactly once, with one automatic tag."""
        ids = [t["id"] for t in db.trials]
        self.out.check(len(set(ids)) == len(ids), key, lambda: "%s: trials %s" % (where, ids))
        for ident in ids:
            for table in nw.TABLES[1:-2]:
                rows = [r["id"] for r in db.of(table, ident)]
                self.out.check(len(set(rows)) == len(rows), key, lambda: "%s: %s of %s: %s" % (where, table, ident, rows[:9]))
            tags = [t for t in db.of("tag", ident) if t["type"] == "AUTO"]
            self.out.check(len(tags) <= 1, key, lambda: "%s: tags %s" % (where, tags))
