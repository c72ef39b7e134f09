"""Crashes and disk faults while storing content never corrupt the store."""
import random

from . import common as c

ID = "C02"
LEVEL = "fault_enumeration"
NOTE = ("crash before, after and inside every sampled mutating system call of every engine, and errno/short-write "
        "faults; sampled, not every operation of every content; no loss of completed writes (no power failure)")
RUNS = {"quick": 700, "thorough": 20000}
AUDIT = 16
RULE = ("A case is a store of one of eleven engine configurations holding generated contents, a process storing "
        "more, repeated and new ones, profiled without fault, then repeated from the same disk image with one fault "
        "(crash, torn or short write, ENOSPC, EIO, EACCES, EMFILE, a full disk, read errors) at each of several "
        "sampled disk operations, each followed by fresh readers and by storing everything again. Non-trivial: at "
        "least one fault fired.")
REAL = c.REAL_ALL
STUBS = ["multiprocessing", "thread scheduling", "clock", "getrandom", "outcome of faulted system calls"]
ASSUMES = ["completed writes survive a crash (no power loss)",
           "git child processes of the pure git engine are killed before or after, not inside"]


def generate(rng, index):
    engine = rng.choice(c.SYNC * 2 + c.SCHEDULED + c.THREADED)
    base = [["b%d.txt" % i, c.enc(c.gen_bytes(rng, big=True))] for i in range(rng.randrange(0, 4))]
    items = []
    for i in range(rng.randrange(1, 5)):
        if base and rng.random() < .3:
            items.append(["again%d.txt" % i, rng.choice(base)[1]])
        else:
            items.append(["n%d.txt" % rng.randrange(3), c.enc(c.gen_bytes(rng, big=True) + b"%d" % rng.randrange(99))])
    return {"engine": engine, "base": base, "items": items, "finish": rng.choice(["commit", "close"]),
            "fresh": rng.random() < .15, "seed": rng.randrange(10 ** 6), "cpus": rng.randrange(1, 3),
            "rate": rng.choice([.02, .2]), "stick": rng.choice([0., .5, .9]),
            "picks": [rng.randrange(10 ** 6) for _ in range(6)], "reads": rng.randrange(2)}


def simplify(sc):
    for picks in c.drop_each(sc["picks"]):
        if picks or sc["reads"]:
            yield dict(sc, picks=picks)
    if sc["reads"]:
        yield dict(sc, reads=0)
    for key in ("items", "base"):
        for items in c.drop_each(sc[key]):
            if items or key == "base":
                yield dict(sc, **{key: items})
        for j, (name, data) in enumerate(sc[key]):
            if len(data) > 3:
                items = list(sc[key])
                items[j] = [name, data[:2] + str(j)]
                yield dict(sc, **{key: items})
    if sc["cpus"] > 1:
        yield dict(sc, cpus=1)


def execute(sc, env, out):
    world = env.world()
    engine = sc["engine"]
    base = [(n, c.dec(d)) for n, d in sc["base"]]
    items = [(n, c.dec(d)) for n, d in sc["items"]]
    kw = dict(seed=sc["seed"], cpus=sc["cpus"], stickiness=sc["stick"], rate=sc["rate"])
    base_ids = []
    res = c.run(world, out, engine, c.put_all, (engine, base, "commit"), **kw)
    if not out.check(res.ok and res.value is not None, "setup", lambda: "%s: %s" % (res.brief(), res.err[-1500:])):
        return
    base_ids = res.value[0]
    snap = world.snapshot()
    res = c.run(world, out, engine, c.put_all, (engine, items, sc["finish"]), **kw)
    if not out.check(res.ok and res.value is not None, "setup", lambda: "%s: %s" % (res.brief(), res.err[-1500:])):
        return
    ids = res.value[0]
    kinds = [k for k in res.kinds]
    want = dict(zip(base_ids, [d for _, d in base]))
    both = dict(want)
    both.update(zip(ids, [d for _, d in items]))
    if not out.check(all(isinstance(i, str) for i in both), "setup-put", lambda: repr(list(both))):
        return
    fired = 0
    if sc["reads"]:
        fired += read_faults(sc, world, out, engine, both, kw)
    for pick in sc["picks"]:
        rng = random.Random(pick)
        # the bulk of the operations belongs to the relational store and the
        # locks around it; prefer the content store
        want_kind = (lambda k: "content" in k[1]) if rng.random() < .9 else None
        fault = c.pick_faults(rng, kinds, want=want_kind)
        if fault is None:
            continue
        world.restore(snap)
        res = c.run(world, out, engine, c.put_all, (engine, items, sc["finish"]), faults=[fault], **kw)
        hit = kinds[fault["op"]][:2]
        where = "%s, %s at operation %d (%s %s)" % (engine, fault, fault["op"], hit[0], hit[1][:60])
        out.probe("fault_fired" if res.crashed or out_fired(res) else "fault_not_reached")
        fired += 1
        out.note(engine, fault["op"], fault["act"], hit[0])
        if not out.check(res.status in ("exit", "crash"), "no-progress",
                         lambda: "%s: storing ended as %s\n%s" % (where, res.status, res.err[-1000:])):
            continue
        acknowledged = set()
        if res.status == "exit" and res.value is not None and res.value[2] is None:
            acknowledged = set(i for i in res.value[0] if isinstance(i, str))
        judge(world, out, engine, want, both, acknowledged, where, "after")
        # everything can be stored again, and is then readable
        res = c.run(world, out, engine, c.put_all, (engine, items, "close"), **kw)
        if not out.check(res.ok and res.value is not None and res.value[2] is None, "store-again",
                         lambda: "%s: storing again ended %s %s: %s" % (
                             where, res.brief(), res.value and res.value[2], res.err[-1200:])):
            continue
        out.check(res.value[0] == ids, "store-again-id",
                  lambda: "%s: storing again gave %r, expected %r" % (where, res.value[0], ids))
        judge(world, out, engine, both, both, set(), where, "again")
    out.nontrivial = fired > 0
    out.signature = [engine, out.log]


def out_fired(res):
    return bool(res.fired()) or any("FAULT" in what for _, what in getattr(getattr(res, "kernel", None), "trace", ()))


def judge(world, out, engine, must, may, acknowledged, where, when):
    order = sorted(may)
    res = c.run(world, out, engine, c.get_all, (engine, order), cpus=1)
    if not out.check(res.status == "exit" and res.value is not None, "reader-" + when,
                     lambda: "%s: reader ended %s: %s" % (where, res.brief(), res.err[-1200:])):
        return
    for ident, data in zip(order, res.value[0]):
        good = data == may[ident]
        missing = isinstance(data, tuple)
        out.check(good or missing, "corrupt-" + when,
                  lambda: "%s: %s reads %r, stored %r" % (where, ident, short(data), short(may[ident])))
        if missing and ident in must:
            out.violate("lost-" + when, "%s: %s reads %r" % (where, ident, data))
        elif missing and ident in acknowledged:
            out.violate("acknowledged-lost", "%s: storing reported success, %s reads %r" % (where, ident, data))


def read_faults(sc, world, out, engine, both, kw):
    """Errors and short reads while reading: an error or the exact bytes."""
    rng = random.Random(sc["seed"])
    order = sorted(both)
    res = c.run(world, out, engine, c.get_all, (engine, order), read_ops=True, **kw)
    fired = 0
    reads = 40
    for _ in range(2):
        fault = {"cls": "R", "op": rng.randrange(reads), "act": "errno", "param": 5}
        if rng.random() < .5:
            fault.update(act="short", param=rng.choice([0, 200, 700]))
        res = c.run(world, out, engine, c.get_all, (engine, order), faults=[fault], read_ops=True, **kw)
        fired += 1
        if res.status != "exit" or res.value is None:
            continue
        for ident, data in zip(order, res.value[0]):
            out.check(data == both[ident] or isinstance(data, tuple), "corrupt-read",
                      lambda: "%s with %s: %s reads %r, stored %r" % (
                          engine, fault, ident, short(data), short(both[ident])))
    return fired


def short(data):
    return data if not isinstance(data, bytes) or len(data) < 60 else data[:60] + b"..."
