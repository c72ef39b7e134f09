"""A script behaves under the collector as it does without it."""
import errno
import random

from . import common as c
from . import nw
from . import programs as g

ID = "T05"
LEVEL = "exploration"
NOTE = ("compares two simulated executions of generated scripts; features the collector is known not to support are "
        "left out of the family and listed as known findings, each with its own script")
RUNS = {"quick": 620, "thorough": 12000}
AUDIT = 16
RULE = ("A case is a generated script (computation, calls, exceptions, generators, classes, modules, files; at top "
        "level, in functions, methods or loops; one of 14 endings) executed twice from the same disk image, by plain "
        "Python and by `now run` with generated options, optionally with the same operation of the script's own file "
        "I/O failing (ENOSPC, EIO, EACCES, EMFILE, short write) in both. Compared: standard output and error, the "
        "files left, the exit status and the uncaught exception. Non-trivial: the script has two snippets or a fault.")
REAL = c.REAL_ALL + ["the generated script"]
STUBS = ["clock", "getrandom", "outcome of faulted system calls", "multiprocessing (parallel engines)"]
ASSUMES = ["scripts do not look at the interpreter's frames, locals, time or memory",
           "scripts close the files they open"]

ACTS = ["ENOSPC", "EIO", "EACCES", "EMFILE", "short"]
FAULTY = ["fgood", "fgood", "ffunc", "fnested"] + g.FILES


def generate(rng, index):
    faulty = rng.random() < .4
    if faulty:
        names = FAULTY + g.CALLS[:4]
        ends = ["normal"]
    else:
        names = g.PURE + g.FILES + g.MODS + ['expr'] * 40
        ends = list(g.ENDS) if rng.random() < .5 else ["normal"]
    return {"program": g.generate(rng, (1, 7), names, ends), "engine": nw.pick_engine(rng),
            "options": nw.run_options(rng), "argv": [rng.choice(["x", "-v", "--dir", "a b", "3"])
                                                     for _ in range(rng.randrange(3))],
            "fault": [rng.randrange(10 ** 6), rng.choice(ACTS)] if faulty else None,
            "seed": rng.randrange(10 ** 6)}


def simplify(sc):
    if "unsupported" in sc:
        return
    for program in g.simplify(sc["program"]):
        yield dict(sc, program=program)
    if sc["fault"]:
        yield dict(sc, fault=None)
    if sc["engine"] != "plain":
        yield dict(sc, engine="plain")
    for options in nw.drop_options(sc["options"]):
        yield dict(sc, options=options)
    for argv in c.drop_each(sc["argv"]):
        yield dict(sc, argv=argv)


#: scripts using what the collector does not support (known findings)
UNSUPPORTED = {
    "frames": 'import inspect\ndef f(): return inspect.currentframe().f_code.co_name\nprint(f())\n',
    "class-comprehension": 'n = 1\nclass A:\n    l = [n for _ in range(2)]\nprint(A.l)\n',
    "defaults-attribute": 'def f(x, y=3): return x\nprint(f.__defaults__)\n',
    "iter-twice": "class A(object):\n    def __iter__(self):\n        print('iter')\n        return iter([1, 2])\nx, y = A()\nprint(x, y)\n",
    "repr-effects": "class A(object):\n    def __repr__(self):\n        print('repr called')\n        return 'A'\nb = [A()]\nprint(len(b))\n",
    "wraps-method": 'import functools\ndef fib(n): return n\nclass C:\n    @functools.wraps(fib)\n    def x(self): return 1\nprint(C().x())\n',
    "async-comprehension": 'import asyncio\nasync def g():\n    yield 1\nasync def main():\n    print([x async for x in g()])\nasyncio.run(main())\n',
    "unclosed": "open('u.txt', 'w').write('1')\nprint(repr(open('u.txt').read()))\n",
}


def execute(sc, env, out):
    world = env.world()
    if "unsupported" in sc:
        world.write("s.py", UNSUPPORTED[sc["unsupported"]].encode())
        snap = world.snapshot()
        plain = out.proc(world.run(g.plain_run, ("s.py",)))
        files = world.files()
        world.restore(snap)
        res = nw.now(world, out, "plain", "run", "s.py")
        out.check((plain.out, files, plain.code) == (res.out, world.files(), res.code),
                  "unsupported-" + sc["unsupported"], lambda: res.out[-500:] + res.err[-500:])
        return
    g.install(world, sc["program"])
    snap = world.snapshot()
    argv = sc["argv"]
    run_args = ("s.py",) + tuple(argv)
    faults = real_faults = ()
    if sc["fault"]:
        plain = out.proc(world.run(g.plain_run, run_args))
        kinds = script_ops(world, [(op[2], op[3], op[5]) for op in plain.ops if op[0] == "W"])
        world.restore(snap)
        res = nw.now(world, out, sc["engine"], "run", *(sc["options"] + list(run_args)), seed=sc["seed"])
        mine = script_ops(world, res.kinds)
        out.check([k[1:3] for k in kinds] == [k[1:3] for k in mine], "file-operations",
                  lambda: "operations of the script differ: %s and %s" % (kinds, mine))
        world.restore(snap)
        if kinds and len(kinds) == len(mine):
            number = sc["fault"][0] % len(kinds)
            act = sc["fault"][1]
            if act == "short" and kinds[number][1] != "write":
                act = "EIO"
            fault = {"act": "short", "param": 300} if act == "short" else \
                {"act": "errno", "param": getattr(errno, act)}
            faults = [dict(fault, op=kinds[number][0])]
            real_faults = [dict(fault, op=mine[number][0])]
            out.probe("io_fault")
    plain = out.proc(world.run(g.plain_run, run_args, faults=faults))
    files = world.files()
    world.restore(snap)
    res = nw.now(world, out, sc["engine"], "run", *(sc["options"] + list(run_args)), faults=real_faults,
                 seed=sc["seed"])
    judge(sc, out, plain, files, res, world.files())
    out.probe("end_" + sc["program"]["end"])
    out.note(plain.brief(), res.brief(), len(res.kinds))
    out.nontrivial = len(sc["program"]["snippets"]) > 1 or bool(faults)
    out.signature = [sc["program"], sc["options"], sc["engine"], sc["fault"]]


def script_ops(world, kinds):
    """[(index, kind, path)] of the operations on the script's own files."""
    return [(i, kind, path) for i, (kind, path, _) in enumerate(kinds) if kind != "exec" and ".noworkflow" not in path]


def judge(sc, out, plain, files, res, now_files):
    if not out.check(res.status == plain.status == "exit", "no-end",
                     lambda: "plain Python ended %s, now run %s: %s" % (plain.brief(), res.brief(), res.err[-800:])):
        return
    rest = res.out[len(plain.out):]
    out.check(res.out.startswith(plain.out) and (not rest or rest.startswith("[now] ")), "stdout",
              lambda: "stdout %r became %r\n%s" % (plain.out[-600:], res.out[-900:], res.err[-500:]))
    if sc["program"]["end"] in ("normal", "exit0", "exit", "exitcaught") and plain.code == 0:
        out.check(not rest, "stdout-extra", lambda: "extra output %r" % rest[-600:])
        out.check(res.err == plain.err, "stderr", lambda: "stderr %r became %r" % (plain.err[-400:], res.err[-400:]))
    elif plain.code == 1 and "Traceback" in plain.err:
        last = plain.err.strip().splitlines()[-1]
        out.check(last in res.out or last in res.err, "exception",
                  lambda: "uncaught %r is not reported: %r" % (last, res.out[-800:]))
    out.check(res.code == plain.code, "exit-status",
              lambda: "exit status %s became %s: %s %s" % (plain.code, res.code, res.out[-500:], res.err[-500:]))
    for name in sorted(set(files) | set(now_files)):
        out.check(files.get(name) == now_files.get(name), "files",
                  lambda: "%s holds %r, without the collector %r" % (name, now_files.get(name), files.get(name)))
