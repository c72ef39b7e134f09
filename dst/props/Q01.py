"""Cached graphs equal freshly computed ones."""
import json
import os
import random
import shutil

from . import common as c
from . import nw
from .. import kernel as kernel_mod
from .. import net as net_mod
from .. import target

ID = "Q01"
LEVEL = "exploration"
NOTE = "up to 4 trials, 12 steps, a server that keeps running and fresh processes"
RUNS = {"quick": 60, "thorough": 3000}
AUDIT = 6
RULE = ("A case is a store whose trials come from runs (some killed, some that save in part, some still at work) and "
        "restores, and a history of requests for graphs of trials, of two trials and of the history, with and without the "
        "cache, to one server that keeps running and by other processes, with crashes, I/O errors, full disks and short "
        "writes at sampled operations of the one that answers, and cached graphs that are lost or cut. Every answer about "
        "trials that finished before the request, and every answer about the history while nothing runs, equals the one of "
        "a new process on a copy of the store without caches; without a fault there is an answer. Non-trivial: an answer "
        "repeated an earlier request.")
REAL = c.REAL_ALL + ["the scripts", "Flask application", "graphs and their cache"]
STUBS = ["network", "WSGI server loop", "clock", "getrandom", "outcome of faulted system calls"]
ASSUMES = ["a cached graph that is damaged is cut or missing, as interruptions leave it"]
MODES = ["tree", "no_match", "exact_match", "namespace_match", "definition_tree"]
SCRIPTS = ["def f(n):\n    return n + %d\nfor i in range(3):\n    f(i)\n",
           "import mod\ndef g(n):\n    return mod.h(n) * %d\ng(2)\ng(3)\n",
           "def r(n):\n    return 1 if n < 2 else r(n - 1) + r(n - 2)\nprint(r(%d %% 4 + 2))\n",
           "def f(n):\n    raise ValueError(n)\ntry:\n    f(%d)\nexcept ValueError:\n    pass\n",
           "def f(n):\n    return n\nx = [f(i) for i in range(%d %% 3)]\nf(f(2))\nf('bad' + 1)\n"]
SLOW = "import time\ndef wait(n):\n    time.sleep(.2)\nwait(1)\n"


def generate(rng, index):
    rows = [{"do": "run", "ver": rng.randrange(15), "save": rng.random() < .4, "kill": None}]
    for _ in range(rng.choice([5, 8, 12])):
        pick = rng.random()
        if pick < .14:
            rows.append({"do": "run", "ver": rng.randrange(15), "save": rng.random() < .5,
                         "kill": rng.randrange(10 ** 6) if rng.random() < .3 else None})
        elif pick < .19:
            rows.append({"do": "restore", "pick": rng.randrange(100)})
        elif pick < .27:
            rows.append({"do": "damage", "how": rng.choice(["lose", "cut", "cut"]), "pick": rng.randrange(10 ** 6)})
        elif pick < .31:
            rows.append({"do": "stop"})
        elif pick < .43:
            rows.append({"do": "during", "ver": rng.randrange(15), "asks": [query(rng) for _ in range(rng.choice([1, 2, 3]))]})
            for ask in rows[-1]["asks"]:
                if rng.random() < .7:
                    rows.append(dict(ask, cache=1, do="ask", fault=None))
        else:
            rows.append(dict(query(rng), do="ask", fault=rng.randrange(10 ** 6) if rng.random() < .25 else None))
            if rng.random() < .5:
                rows.append(dict(rows[-1], cache=1, fault=None, at=rng.choice(["server", "new"])))
                if rng.random() < .5:                   # the other way round, or another mode of it
                    rows[-1].update({"one": rows[-1]["two"], "two": rows[-1]["one"], "at": "new"}
                                    if rows[-1]["kind"] == "diff" else {"mode": rng.choice(MODES)})
    return {"steps": rows, "engine": rng.choice(["plain", "plain", "sequential_pygit"]), "seed": rng.randrange(10 ** 6)}


def query(rng):
    kind = rng.choice(["trial", "trial", "trial", "diff", "history"])
    return {"kind": kind, "mode": rng.choice(MODES), "cache": rng.choice([1, 1, 1, 0]), "one": rng.randrange(100),
            "two": rng.randrange(100), "at": rng.choice(["server", "server", "new"]),
            "script": rng.choice(["*", "*", "s.py"]), "status": rng.choice(["*", "*", "finished", "unfinished", "backup"]),
            "summarize": rng.choice([0, 0, 1])}


def simplify(sc):
    for rows in c.drop_each(sc["steps"]):
        yield dict(sc, steps=rows)
    if sc["engine"] != "plain":
        yield dict(sc, engine="plain")
    for i, row in enumerate(sc["steps"]):
        less = []
        for key in ("fault", "kill"):
            if row.get(key) is not None:
                less.append(dict(row, **{key: None}))
        if len(row.get("asks", ())) > 1:
            less += [dict(row, asks=a) for a in c.drop_each(row["asks"]) if a]
        for one in less:
            yield dict(sc, steps=sc["steps"][:i] + [one] + sc["steps"][i + 1:])


def answer(path):
    """Client of the server."""
    import requests
    net_mod.install_client()
    res = requests.get("http://m0" + path)
    return res.status_code, res.text


def compute(engine, kind, args):
    """A process that asks for a graph itself."""
    from noworkflow.now.persistence import persistence_config
    persistence_config.content_engine = engine
    persistence_config.connect(".")
    if kind == "history":
        from noworkflow.now.models.history import History
        whole = History(script=args[0], status=args[1], summarize=bool(args[2]))    # graphs have weak references
        result = whole.graph.graph()
    elif kind == "trial":
        from noworkflow.now.persistence.models import Trial
        whole = Trial(args[0])
        graph = whole.graph
        graph.use_cache = bool(args[2])
        result = getattr(graph, args[1])()[1]
    else:
        from noworkflow.now.models.diff import Diff
        whole = Diff(args[0], args[1])
        graph = whole.graph
        graph.use_cache = bool(args[3])
        result = getattr(graph, args[2])()[1]
    from noworkflow.now.vis.views import app, jsonify
    with app.app_context():
        return 200, jsonify(**result).get_data(as_text=True)


class Play(object):
    def __init__(self, sc, world, out):
        self.sc, self.world, self.out = sc, world, out
        self.engine, self.count, self.known, self.asked = sc["engine"], 0, {}, set()
        self.server, self.ker = None, None
        world.write("mod.py", "def h(n):\n    return n\n")

    # ------------------------------------------------------------------ parts
    def kernel(self):
        if self.ker is None:
            seed = "%s-%s" % (self.sc["seed"], self.count)
            self.net = net_mod.Net(random.Random("n" + seed))
            self.ker = kernel_mod.Kernel(self.world, random.Random("k" + seed), .6, max_steps=400000, net=self.net)
        return self.ker

    def serve(self, faults=()):
        ker = self.kernel()
        if self.server is None or not self.server.alive or faults:
            self.stop_server()
            ker = self.kernel()
            self.server = ker.spawn("vis", net_mod.serve, ("m0", self.engine), faults=faults)
            self.net.hosts["m0"] = 1
            ker.on_exit[self.server.number] = self.gone
        return ker

    def gone(self, _, proc):
        self.net.died(self.ker, proc)
        self.net.down(self.ker, "m0")

    def stop_server(self):
        """Ends whatever runs."""
        if self.ker is not None:
            self.ker.shutdown()
            self.out.stats["scheduler_steps"] += self.ker.steps
            self.out.note("kernel", self.ker.steps, c.hash_trace(self.ker.trace))
        self.ker = self.server = None

    def run(self, row, faults=()):
        self.count += 1
        self.world.clock.skew += 10 ** 9
        text = SCRIPTS[row["ver"] % len(SCRIPTS)] % row["ver"]
        if row["do"] == "during":
            text = SLOW + text
        self.world.write("s.py", text)
        argv = nw.argv_for(self.engine, ["run"] + (["-s", "1", "-S", "1"] if row.get("save", True) else []) + ["s.py"])
        return argv

    def idle(self, argv, faults=()):
        """A command while the server waits."""
        return c.run(self.world, self.out, self.engine, target.now, tuple(argv), faults=faults,
                     seed=self.sc["seed"] + self.count, name="now-" + argv[0])

    def trials(self):
        db = nw.dump(self.world)
        if not db.exists:
            return [], [], None
        rows = [dict(t) for t in db.trials]
        state = json.dumps([rows, [dict(t) for t in db["tag"]], [dict(t) for t in db["head"]]], sort_keys=True, default=str)
        return [t["id"] for t in rows if t["finish"] is not None], [t["id"] for t in rows], state

    def request(self, row, newest=False):
        """-> (kind, arguments, path, about) of a request, about: trials that have to be finished."""
        done, every, _ = self.trials()
        if row["kind"] == "history":
            args = [row["script"], row["status"], row["summarize"]]
            return "history", args, "/trials.json?script=%s&execution=%s&summarize=%d" % tuple(args), None
        if not every:
            return None
        one = (done or every)[row["one"] % len(done or every)] if row["one"] % 7 else every[row["one"] % len(every)]
        if newest:
            one = every[-1]
        if row["kind"] == "trial":
            return "trial", [one, row["mode"], row["cache"]], "/trials/%s/%s/%d.json" % (one, row["mode"], row["cache"]), [one]
        two = (done or every)[row["two"] % len(done or every)]
        return "diff", [one, two, row["mode"], row["cache"]], "/diff/%s/%s/%s-%d.json" % (
            one, two, row["mode"], row["cache"]), [one, two]

    def spawn(self, row, req, faults=()):
        ker = self.serve(faults if row["at"] == "server" else ())
        self.count += 1
        if row["at"] == "server":
            return ker.spawn("client", answer, (req[2],), cwd="")
        return ker.spawn("client", compute, (self.engine,) + tuple(req[:2]), faults=faults)

    def reference(self, req, state):
        """By a new process on a copy of the store without caches."""
        kind, args = req[0], list(req[1])
        if kind != "history":
            args[-1] = 0
        key = json.dumps([kind, args, state if kind == "history" else None])
        if key not in self.known:
            self.known[key] = self.fresh(kind, args)
        return self.known[key]

    def fresh(self, kind, args):
        import sqlite3
        copy = self.world.path("copy")
        shutil.copytree(self.world.path(".noworkflow"), os.path.join(copy, ".noworkflow"))
        con = sqlite3.connect(os.path.join(copy, ".noworkflow", "db.sqlite"))
        con.execute("delete from graph_cache")
        con.commit()
        con.close()
        res = c.run(self.world, self.out, self.engine, compute, (self.engine, kind, args), cwd="copy",
                    seed=self.sc["seed"], name="fresh")
        shutil.rmtree(copy)
        if not res.ok or not res.value:
            self.out.check(kind == "diff", "no-graph", lambda: "%s %s: %s %s" % (kind, args, res.brief(), res.err[-800:]))
            return None
        return json.loads(res.value[1])

    # ------------------------------------------------------------------ steps
    def step(self, number, row):
        where = "step %d, %s" % (number, row)
        do = row["do"]
        if do == "run":
            argv = self.run(row)
            if row["kill"] is not None:
                snap = self.world.snapshot()
                kinds = self.idle(argv).kinds
                self.world.restore(snap)
                fault = c.pick_faults(random.Random(row["kill"]), kinds, crash=1, errors=0, want=lambda k: ".noworkflow" in k[1])
                self.idle(argv, [fault] if fault else [])
            else:
                self.idle(argv)
        elif do == "restore":
            done = self.trials()[0]
            if done:
                self.world.write("s.py", "edited = %d\n" % number)
                self.idle(nw.argv_for(self.engine, ["restore", done[row["pick"] % len(done)]]))
        elif do == "stop":
            self.stop_server()
        elif do == "damage":
            self.damage(row)
        elif do == "ask":
            self.ask(where, row)
        else:
            self.during(where, row)

    def damage(self, row):
        """A cached graph is lost or cut."""
        import sqlite3
        if not os.path.exists(self.world.path(".noworkflow/db.sqlite")):
            return
        con = sqlite3.connect(self.world.path(".noworkflow/db.sqlite"))
        hashes = [r[0] for r in con.execute("select content_hash from graph_cache order by id")]
        con.close()
        rng = random.Random(row["pick"])
        rng.shuffle(hashes)
        for ident in hashes[:rng.choice([1, 2, 9])]:
            sub = ".noworkflow/content" if self.engine == "plain" else ".noworkflow/content.git/objects"
            path = self.world.path(sub, ident[:2], ident[2:])
            if not os.path.exists(path):
                continue
            self.out.faults["cached graph " + row["how"]] += 1
            if row["how"] == "lose" or self.engine != "plain":
                os.remove(path)
            else:
                os.chmod(path, 0o644)
                with open(path, "r+b") as fil:
                    fil.truncate(rng.randrange(os.path.getsize(path)))

    def ask(self, where, row):
        req = self.request(row)
        if req is None:
            return
        faults = []
        if row["fault"] is not None:
            faults = self.pick(row, req)
        done, _, state = self.trials()
        client = self.spawn(row, req, faults)
        self.finish(client)
        server = self.server
        self.judge(where, row, req, client, done, state if row["kind"] == "history" else None, bool(faults))
        if faults and row["at"] == "server":
            self.stop_server()
            self.out.proc(server.result)

    def pick(self, row, req):
        rng = random.Random(row["fault"])
        self.stop_server()
        snap, count = self.world.snapshot(), self.count
        client = self.spawn(row, req)
        self.finish(client)
        kinds = (self.server if row["at"] == "server" else client).kinds
        self.stop_server()
        self.world.restore(snap)
        self.count = count
        fault = c.pick_faults(rng, kinds, want=lambda k: ".noworkflow" in k[1])
        return [fault] if fault else []

    def finish(self, *procs):
        self.ker.run(until=lambda k: not any(p.alive for p in procs))

    def during(self, where, row):
        """Requests while a run is at work."""
        ker = self.serve()
        worker = ker.spawn("now-run", target.now, tuple(self.run(row)))
        again = []
        for each in row["asks"]:
            stop = ker.steps + each["one"] * 11
            newest = bool(each["two"] % 3)
            ker.run(until=lambda k: not worker.alive or k.steps >= stop)
            req = self.request(each, newest)
            if newest and each["kind"] != "history":
                again.append(dict(each, cache=1))
            if req is None:
                ker.run(until=lambda k: not worker.alive or k.steps % 40 == 0)
                continue
            done = self.trials()[0]
            client = self.spawn(each, req)
            self.finish(client)
            self.judge(where, each, req, client, done, None, False)
        if self.ker is ker:
            self.finish(worker)
        self.out.check(worker.result.status == "exit", "run-fails", lambda: "%s: %s %s" % (
            where, worker.result.brief(), worker.result.err[-500:]))
        for each in again:                    # now of a finished trial
            req = self.request(each, True)
            if req is not None:
                client = self.spawn(each, req)
                self.finish(client)
                self.judge(where + ", afterwards", each, req, client, self.trials()[0], None, False)

    def judge(self, where, row, req, client, done, state, faulted):
        out, res = self.out, client.result
        out.proc(res)
        about = req[3]
        if about is None and state is None:
            return                            # the history while something runs
        if about is not None and not all(i in done for i in about):
            return                            # of a trial that is not finished
        value = res.value if res.ok else None
        out.note(req[0], res.status, value and value[0])
        if value is None or value[0] != 200:
            if not faulted and self.reference(req, state) is not None:
                out.violate("no-answer", "%s: %s %s %s" % (where, res.brief(), str(value)[:300], res.err[-900:]))
            return
        fresh = self.reference(req, state)
        if fresh is None:
            return                            # two trials, one of them without calls
        got = json.loads(value[1])
        out.check(fresh == got, "other-" + req[0], lambda: "%s: %s\n is  %s\n not %s" % (
            where, req[:2], difference(got, fresh), difference(fresh, got)))
        out.probe("answers")
        key = json.dumps([req[0], req[1][:-1] if req[0] != "history" else req[1]])
        if key in self.asked:
            out.nontrivial = True
            out.probe("repeated")
        self.asked.add(key)


def difference(one, two):
    """The first part of one that is not as in two."""
    if isinstance(one, dict) and isinstance(two, dict):
        for key in sorted(one):
            if key not in two or one[key] != two[key]:
                return "%s: %s" % (key, difference(one[key], two.get(key)))
    if isinstance(one, list) and isinstance(two, list):
        for i, part in enumerate(one):
            if i >= len(two) or part != two[i]:
                return "%d: %s" % (i, difference(part, two[i] if i < len(two) else None))
    return repr(one)[:300]


def execute(sc, env, out):
    play = Play(sc, env.world(), out)
    for number, row in enumerate(sc["steps"]):
        play.step(number, row)
    play.stop_server()
    out.signature = [sc["engine"], out.log]
