"""Stored content is returned byte for byte, whatever engine and schedule."""
import random

from . import common as c
from .. import kernel as kernel_mod
from .. import mp

ID = "C01"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 20000}
AUDIT = 24
RULE = ("A case is 1-3 processes, concurrent or not, each storing 1-12 generated contents under generated file "
        "names through one of eleven engine configurations under a seeded schedule of worker processes or "
        "threads, followed by fresh processes reading every identifier back, possibly with another engine of "
        "the same store.  Non-trivial: at least two contents, one of them not plain ASCII or repeated, read "
        "back in another process.")
REAL = c.REAL_ALL
STUBS = ["multiprocessing (processes are real forks; queues, managers, locks and who runs are simulated)",
         "threading (real threads, simulated scheduling)", "clock", "getrandom"]
ASSUMES = ["line-level preemption of threads inside noworkflow's persistence package and dulwich only",
           "the C code of libgit2 and SQLite runs atomically between system calls"]

NAMES = ["a.txt", "a.txt", "sub/b.txt", "sub/deep/c.bin", "./a.txt", "sp ace.txt", " lead.txt",
         "ol\u00e1.txt", "x" * 200 + ".txt", "/etc/outside.txt", "/root/home.txt", "generic", "../up.txt",
         "a.txt - v2"]


def generate(rng, index):
    engine = rng.choice(c.SYNC + c.SCHEDULED * 2 + c.THREADED * 2)
    pool = [c.gen_bytes(rng, big=True) for _ in range(rng.randrange(1, 8))]
    procs = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        items = [[rng.choice(NAMES) if rng.random() < .8 else "f%d.txt" % rng.randrange(4),
                  c.enc(rng.choice(pool) if rng.random() < .5 else c.gen_bytes(rng))]
                 for _ in range(rng.randrange(1, 12))]
        procs.append({"items": items, "finish": rng.choice(["commit", "commit", "close"])})
    family = ["plain"] if engine == "plain" else ["sequential_pygit", "sequential_dulwich", "puregit", "gitdb"]
    return {"engine": engine, "procs": procs,
            "concurrent": engine not in c.THREADED and rng.random() < .6 and len(procs) > 1,
            "reader": rng.choice(family) if rng.random() < .6 else engine,
            "seed": rng.randrange(10 ** 6), "cpus": rng.randrange(1, 4),
            "stick": rng.choice([0.0, 0.3, 0.6, 0.9]), "rate": rng.choice([.02, .1, .4])}


def simplify(sc):
    if len(sc["procs"]) > 1:
        for keep in c.drop_each(sc["procs"]):
            if keep:
                yield dict(sc, procs=keep, concurrent=sc["concurrent"] and len(keep) > 1)
    for i, proc in enumerate(sc["procs"]):
        for items in c.drop_each(proc["items"]):
            if items:
                procs = list(sc["procs"])
                procs[i] = dict(proc, items=items)
                yield dict(sc, procs=procs)
        for j, (name, data) in enumerate(proc["items"]):
            for small in ([name, "v"], [name, data[:len(data) // 2]], ["f.txt", data]):
                if small != [name, data] and len(small[0]) + len(small[1]) < len(name) + len(data):
                    procs = list(sc["procs"])
                    procs[i] = dict(proc, items=proc["items"][:j] + [small] + proc["items"][j + 1:])
                    yield dict(sc, procs=procs)
    if sc["concurrent"]:
        yield dict(sc, concurrent=False)
    if sc["cpus"] > 1:
        yield dict(sc, cpus=1)


def execute(sc, env, out):
    world = env.world()
    engine = sc["engine"]
    jobs = [[(n, c.dec(d)) for n, d in p["items"]] for p in sc["procs"]]
    reads = random.Random(sc["seed"])
    sync = c.mode_of(engine) == "local"
    results = []
    if sc["concurrent"]:
        c.run(world, out, engine, c.put_all, (engine, [("seed.txt", b"first")]), seed=sc["seed"], cpus=sc["cpus"])
        mp.CPUS = sc["cpus"]
        ker = kernel_mod.Kernel(world, random.Random(sc["seed"]), sc["stick"])
        spawned = [ker.spawn("p%d" % i, c.put_all, (engine, items, sc["procs"][i]["finish"], "m%d" % i))
                   for i, items in enumerate(jobs)]
        ker.run()
        out.stats["scheduler_steps"] += ker.steps
        out.stats["context_switches"] += ker.switches
        out.note("kernel", ker.steps, ker.switches, c.hash_trace(ker.trace))
        out.probe("concurrent_writers")
        for proc in spawned:
            if ker.outcome:
                proc.result.status = ker.outcome
            results.append(out.proc(proc.result))
    else:
        for i, items in enumerate(jobs):
            back = [j for j in range(len(items)) if reads.random() < .3] if sync else []
            results.append(c.run(world, out, engine, c.put_all,
                                 (engine, items, sc["procs"][i]["finish"], "m%d" % i, back),
                                 seed=sc["seed"] + i, cpus=sc["cpus"], stickiness=sc["stick"], rate=sc["rate"]))
    ids, datas = [], []
    for i, (res, items) in enumerate(zip(results, jobs)):
        if not out.check(res.status == "exit" and res.value is not None, "writer-" + str(res.status),
                         lambda: "process %d (%s) storing %d contents ended %s: %s" % (
                             i, engine, len(items), res.brief(), res.err[-1500:])):
            return
        got, early, fin = res.value
        # a concurrent commit may lose a race for the branch lock: allowed to
        # fail loudly, never to lose content
        if fin is not None and not sc["concurrent"]:
            out.violate("snapshot-error", "%s: finishing %d puts failed: %s" % (engine, len(items), fin))
        elif fin is not None:
            out.probe("concurrent_commit_refused")
        for (name, data), ident in zip(items, got):
            if not out.check(isinstance(ident, str), "put-refused",
                             lambda: "%s: put(%r, %d bytes) failed without any fault: %r" % (
                                 engine, name, len(data), ident)):
                return
            ids.append(ident)
            datas.append(data)
        for j, data in early:
            out.check(data == items[j][1], "read-back-same-process",
                      lambda: "%s: get right after put gave %r for %r" % (engine, short(data), short(items[j][1])))
    by_data = {}
    for data, ident in zip(datas, ids):
        by_data.setdefault(data, set()).add(ident)
    for data, idents in by_data.items():
        out.check(len(idents) == 1, "two-ids", lambda: "%s: equal content got ids %r" % (engine, idents))
    by_id = {}
    for data, ident in zip(datas, ids):
        by_id.setdefault(ident, set()).add(data)
    for ident, group in by_id.items():
        out.check(len(group) == 1, "shared-id", lambda: "%s: id %s shared by different contents" % (engine, ident))
    want = sorted(set(ids))
    prefixes = []
    for ident in want:
        size = 8
        while any(o != ident and o.startswith(ident[:size]) for o in want):
            size += 1
        prefixes.append(ident[:size])
    absent = ["f" * 12] + [p for ident in want[:3] for p in (
        ident[:2] + ident[6:14], ident[:8] + ident[9:], ident[1:], ident + "0", ident[-12:])]
    absent = [p for p in absent if not any(i.startswith(p) for i in want)]
    res = c.run(world, out, sc["reader"], c.get_all, (sc["reader"], want, prefixes + absent),
                seed=sc["seed"] + 77, cpus=1)
    if not out.check(res.status == "exit" and res.value is not None, "reader-" + str(res.status),
                     lambda: "reader (%s) ended %s: %s" % (sc["reader"], res.brief(), res.err[-1500:])):
        return
    got, found = res.value
    lookup = {ident: data for data, ident in zip(datas, ids)}
    for ident, data in zip(want, got):
        out.check(data == lookup[ident], "read-back",
                  lambda: "%s stored %r under %s, %s reads %r" % (
                      engine, short(lookup[ident]), ident, sc["reader"], short(data)))
    for ident, hit in zip(want, found):
        out.check(hit == ident, "prefix-lookup",
                  lambda: "%s: looking up the unique prefix of %s gave %r" % (sc["reader"], ident, hit))
    for prefix, miss in zip(absent, found[len(want):]):
        out.check(miss is None, "prefix-miss",
                  lambda: "%s: looking up %s, no prefix of any identifier, gave %r" % (sc["reader"], prefix, miss))
    out.nontrivial = len(datas) > 1 and (len(set(datas)) < len(datas)
                                         or any(max(d or b"\0") > 126 or not d for d in datas))
    out.signature = [engine, sc["reader"], sorted(len(d) for d in datas), out.log]


def short(data):
    return data if not isinstance(data, bytes) or len(data) < 60 else data[:60] + b"..."
