"""Every executed function call is recorded once, under its caller."""
import ast
import errno
import json
import os
import re
import sys

from . import common as c
from . import nw
from . import programs as g
from .T05 import ACTS, FAULTY, script_ops

ID = "T06"
LEVEL = "exploration"
NOTE = ("generated scripts of the main module, with faults in their own file operations; the reference is the script "
        "with every function wrapped by a recorder")
RUNS = {"quick": 400, "thorough": 12000}
AUDIT = 12
RULE = ("A case is a generated script run once under a reference recorder that wraps each of its functions and lambdas, "
        "and once by `now run` at unlimited depth with generated engine and save frequency, in part with the same disk "
        "error in the same file operation of the script. The activations of script functions are, in order, the calls "
        "of the reference, with equal names, calling activations, parameter values and return values. A third run with "
        "a generated depth holds exactly the activations above that depth. Non-trivial: five or more calls.")
REAL = c.REAL_ALL + ["the generated script"]
STUBS = ["clock", "getrandom", "outcome of faulted system calls", "multiprocessing (parallel engines)"]
ASSUMES = ["representations of values have no side effects"]


def generate(rng, index):
    faulty = rng.random() < .25
    if faulty:
        names, ends = FAULTY + g.CALLS, ["normal"]
    else:
        names = g.PURE + g.CALLS * 3 + g.FILES[:3] + ["calls"] * 60
        ends = list(g.ENDS) if rng.random() < .4 else ["normal"]
    return {"program": generate_program(rng, names, ends), "engine": nw.pick_engine(rng, .1),
            "save": rng.choice([None, None, 1, 5]), "tick": rng.choice([1000, 10 ** 5]),
            "depth": rng.choice([None, 0, 1, 1, 2, 2, 3, 4, 6]),
            "fault": [rng.randrange(10 ** 6), rng.choice(ACTS)] if faulty else None, "seed": rng.randrange(10 ** 6)}


def generate_program(rng, names, ends):
    calls = rng.random() < .6
    # The collector itself asks for the representation of values, and the body of a coroutine runs when it is awaited
    names = [n for n in names if n not in g.T or not re.search("__repr__|async def|atexit|globals", g.T[n][1])]
    program = g.generate(rng, (1, 4), [n for n in names if n != "calls"], ends)
    program["calls"] = rng.randrange(10 ** 9) if calls else None
    return program


def simplify(sc):
    for program in g.simplify(sc["program"]):
        yield dict(sc, program=program)
    if sc["program"]["calls"] is not None:
        yield dict(sc, program=dict(sc["program"], calls=None))
    for key, plain in (("fault", None), ("engine", "plain"), ("save", None), ("tick", 1000), ("depth", None)):
        if sc[key] != plain:
            yield dict(sc, **{key: plain})


# ------------------------------------------------------------ random call graphs
def call_graph(seed):
    """A script of functions that call each other in random ways."""
    import random
    rng = random.Random(seed)
    count = rng.randrange(2, 6)
    kinds, text = {}, ["def leaf(x, y=2):\n    return x\n", "fuel = [40]\n",
                       "def use(items):\n    total = 0\n    for item in items:\n        total += leaf(item)\n    return total\n",
                       "def guard():\n    fuel[0] -= 1\n    return fuel[0] < 0\n"]
    for number in range(count):
        kinds[number] = rng.choice(["def", "def", "def", "gen", "lambda", "method", "star", "kw", "closure", "raiser",
                                    "static", "default"])

    def call(number, arg):
        kind = kinds[number]
        if kind == "gen":
            return rng.choice(["list(f%d(%s))", "next(f%d(%s))", "sum(f%d(%s))", "[z for z in f%d(%s)]", "use(f%d(%s))",
                               "max(f%d(%s), key=leaf)", "sorted(f%d(%s), key=lambda v: leaf(v))",
                               "sum(map(leaf, f%d(%s)))", "list(filter(leaf, f%d(%s)))"]) % (number, arg)
        if kind == "method":
            return "C%d(%s).go(%s)" % (number, rng.randrange(9), arg)
        if kind == "static":
            return "C%d.go(%s)" % (number, arg)
        if kind == "star":
            return rng.choice(["f%d(%s)", "f%d(*[%s, 2])", "f%d(%s, 4, z=5)", "f%d(*(%s,), **{'w': 1})"]) % (number, arg)
        if kind == "kw":
            return rng.choice(["f%d(a=%s)", "f%d(%s, b=7)", "f%d(b=3, a=%s)", "f%d(**{'a': %s})"]) % (number, arg)
        if kind == "closure":
            return "f%d(%s)(%d)" % (number, arg, rng.randrange(5))
        return "f%d(%s)" % (number, arg)

    def expr(depth=0):
        pick = rng.random()
        if depth > 1 or pick < .2:
            return rng.choice(["x", "1", "leaf(x)", "leaf(3, y=x)"])
        number = rng.randrange(count)
        if pick < .6:
            return call(number, expr(depth + 1))
        if pick < .68:
            return "[leaf(q) for q in range(%d)][0]" % rng.randrange(1, 4)
        if pick < .76:
            return "max([1, 2], key=lambda v: leaf(v))"
        if pick < .84:
            return "(%s if leaf(%d) else %s)" % (expr(depth + 1), rng.randrange(2), expr(depth + 1))
        if pick < .92:
            return "(leaf(%s), leaf(%s))[0]" % (expr(depth + 1), expr(depth + 1))
        return "list(map(leaf, [%s, 2]))[0]" % expr(depth + 1)

    for number in range(count):
        kind = kinds[number]
        guard = "    if guard():\n        return 0\n"
        body = guard + "    r = %s\n" % expr()
        if rng.random() < .3:
            body += "    for i in range(%d):\n        r = %s\n" % (rng.randrange(3), expr())
        if rng.random() < .3:
            body += "    try:\n        r = %s\n    except ValueError:\n        r = %s\n" % (expr(), expr())
        end = "    return %s\n" % rng.choice(["r", "x", expr()])
        if kind == "raiser":
            end = "    if leaf(x) == leaf(%d):\n        raise ValueError(x)\n    return 1\n" % rng.randrange(3)
        if kind == "gen":
            text.append("def f%d(x):\n    yield 1\n%s    yield 2\n%s" % (number, body.replace("return 0", "return"),
                                                                      "    yield leaf(2)\n"))
        elif kind == "lambda":
            text.append("f%d = lambda x: 0 if guard() else %s\n" % (number, expr()))
        elif kind in ("method", "static"):
            head = "class C%d(object):\n" % number
            if kind == "method":
                head += "    def __init__(self, s):\n        self.s = leaf(s)\n    def go(self, x):\n"
            else:
                head += "    @staticmethod\n    def go(x):\n"
            text.append(head + g.indent(body + end, "    "))
        elif kind == "star":
            text.append("def f%d(x, *rest, **more):\n%s" % (number, body + end))
        elif kind == "kw":
            text.append("def f%d(a, b=4):\n    x = a\n%s" % (number, body + end))
        elif kind == "default":
            text.append("def f%d(x, y=5, z=(1,)):\n%s" % (number, body + end))
        elif kind == "closure":
            text.append("def f%d(n):\n    def inner(x):\n%s    return inner\n" % (number, g.indent(body + end, "    ")))
        else:
            text.append("def f%d(x):\n%s" % (number, body + end))
    text.append("x = 3\n")
    for _ in range(rng.randrange(1, 4)):
        text.append("try:\n    print(%s)\nexcept ValueError as exc:\n    print('failed', exc)\nfuel[0] = 40\n" % expr())
    return "".join(text)


def render(program):
    text = g.render(dict(program, end="normal"))
    if program["calls"] is not None:
        text += call_graph(program["calls"])
    return text + g.ENDS[program["end"]][0]


# ---------------------------------------------------------------- the reference
class Wrap(ast.NodeTransformer):
    """Wrap every function and lambda with the recorder."""

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        node.decorator_list.append(ast.copy_location(ast.Name("__ref__", ast.Load()), node))
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("__ref__", ast.Load()), [node], []), node)


class Recorder(object):

    def __init__(self, path):
        self.calls = []
        self.frames = {}           # id(frame of a generator) -> (frame, record)
        self.path = path

    def parent(self):
        """(number of the call that calls, whether it is certain)."""
        frame = sys._getframe(2)
        loose = False
        while frame is not None:
            if frame.f_code.co_filename == self.path:
                found = self.frames.get(id(frame))
                if found:
                    return found[1], loose
                name = frame.f_code.co_name
                if name == "<genexpr>":
                    loose = True
                back = frame.f_back
                if back is not None and back.f_code is self.code and "rec" in back.f_locals and name != "<genexpr>":
                    return back.f_locals["rec"]["number"], loose
                if name == "<module>":
                    return None, loose
            frame = frame.f_back
        return None, True

    def wrap(self, function):
        import functools
        import inspect
        recorder = self
        try:
            signature = inspect.signature(function)
        except (ValueError, TypeError):
            signature = None

        @functools.wraps(function)
        def ref_call(*args, **kwargs):
            number, loose = recorder.parent()
            rec = {"number": len(recorder.calls), "name": function.__name__, "parent": number, "loose": loose,
                   "args": {}, "ret": None, "end": None, "started": True}
            recorder.calls.append(rec)
            try:
                bound = signature.bind(*args, **kwargs)
                bound.apply_defaults()
                for name, value in bound.arguments.items():
                    kind = signature.parameters[name].kind
                    if kind not in (2, 4):
                        rec["args"][name] = text_of(value)
            except TypeError:
                rec["end"] = "unbound"
                recorder.calls.pop()             # the call itself fails: nothing is executed
                return function(*args, **kwargs)
            try:
                result = function(*args, **kwargs)
            except BaseException as exc:
                rec["end"] = "raised"
                del exc
                raise
            for kind in ("gi_frame", "cr_frame", "ag_frame"):
                frame = getattr(result, kind, None)
                if frame is not None and frame.f_code is function.__code__:
                    recorder.frames[id(frame)] = (frame, rec["number"])
                    rec["end"] = "pending"
            if rec["end"] is None:
                rec["end"] = "returned"
                rec["ret"] = text_of(result)
            return result
        self.code = ref_call.__code__
        return ref_call


def text_of(value):
    try:
        return repr(value)
    except BaseException:
        return None


def reference(script):
    """The script, with its calls recorded: the body of a process."""
    import builtins
    path = os.path.realpath(script)
    recorder = Recorder(path)
    builtins.__ref__ = recorder.wrap
    real = builtins.compile

    def compiled(text, name, mode, **kw):
        if name == path and isinstance(text, bytes):
            tree = ast.fix_missing_locations(Wrap().visit(ast.parse(text)))
            return real(tree, name, mode, **kw)
        return real(text, name, mode, **kw)
    from . import programs
    programs.compile = compiled
    try:
        programs.plain_run(script)
    except SystemExit:
        pass
    finally:
        for frame, number in recorder.frames.values():
            recorder.calls[number]["started"] = frame.f_lasti > 0
    return recorder.calls


# ---------------------------------------------------------------- the record
class Tree(object):
    """The activations of a trial."""

    def __init__(self, db, trial_id):
        self.eva = dict((e["id"], e) for e in db.of("evaluation", trial_id))
        self.act = dict((a["id"], a) for a in db.of("activation", trial_id))
        self.comp = dict((x["id"], x) for x in db.of("code_component", trial_id))
        self.params = {}
        for ident in sorted(self.eva):
            row = self.eva[ident]
            comp = self.comp.get(row["code_component_id"])
            if comp is not None and comp["type"] == "param":
                self.params.setdefault(row["activation_id"], {}).setdefault(comp["name"], []).append(row["repr"])
        self.functions = [i for i in sorted(self.act) if self.type_of(i) in ("function_def", "lambda_def")]

    def type_of(self, ident):
        block = self.act[ident]["code_block_id"]
        return self.comp[block]["type"] if block in self.comp else None

    def up(self, ident):
        return self.eva[ident]["activation_id"]

    def caller(self, ident):
        """The script function (or script) whose activation made a call."""
        ident = self.up(ident)
        while ident in self.act and self.type_of(ident) not in ("function_def", "lambda_def", "script", "module"):
            ident = self.up(ident)
        return ident if ident in self.act else None

    def level(self, ident):
        count = 0
        while ident in self.act:
            ident = self.up(ident)
            count += 1
        return count

    def shape(self, limit=None):
        """[(path of indexes, name, type, params, repr)] of the activations up to a level."""
        kids, index, rows = {}, {}, []
        for ident in sorted(self.act):
            level = self.level(ident)
            if limit is not None and level > limit:
                continue
            parent = self.up(ident)
            index[ident] = index.get(parent, ()) + (kids.setdefault(parent, 0),)
            kids[parent] += 1
            params = plain(repr(sorted(self.params.get(ident, {}).items()))) if limit is None or level < limit else None
            rows.append([index[ident], self.act[ident]["name"], plain(self.eva[ident]["repr"]), params])
        return rows


def plain(text):
    """Without the addresses of objects."""
    return text and re.sub(r"0x[0-9a-f]+|\b1[34]\d{13}\b", "0x", str(text))


def execute(sc, env, out):
    world = env.world()
    g.install(world, sc["program"])
    world.write("s.py", render(sc["program"]).encode())
    snap = world.snapshot()
    options = ["-s", str(sc["save"])] if sc["save"] else []

    def real(extra=(), faults=()):
        world.restore(snap)
        world.clock.tick = sc["tick"]
        res = nw.now(world, out, sc["engine"], "run", *(options + list(extra) + ["s.py"]), seed=sc["seed"],
                     faults=faults)
        world.clock.tick = 1000
        return res
    faults = real_faults = ()
    if sc["fault"]:
        plain_res = out.proc(world.run(reference, ("s.py",)))
        kinds = script_ops(world, [(op[2], op[3], op[5]) for op in plain_res.ops if op[0] == "W"])
        mine = script_ops(world, real().kinds)
        if kinds and [k[1:3] for k in kinds] == [k[1:3] for k in mine]:
            number, act = sc["fault"][0] % len(kinds), sc["fault"][1]
            if act == "short" and kinds[number][1] != "write":
                act = "EIO"
            fault = {"act": "short", "param": 300} if act == "short" else {"act": "errno", "param": getattr(errno, act)}
            faults = [dict(fault, op=kinds[number][0])]
            real_faults = [dict(fault, op=mine[number][0])]
            out.probe("io_fault")
        world.restore(snap)
    ref = out.proc(world.run(reference, ("s.py",), faults=faults))
    calls = ref.value
    if calls is None:
        out.note("no reference", ref.brief(), ref.err[-300:])
        return
    res = real(faults=real_faults)
    db = nw.dump(world)
    if not out.check(len(db.trials) == 1 and db.trials[0]["finish"], "no-trial",
                     lambda: "%s: %s" % (res.brief(), res.err[-1000:])):
        return
    tree = Tree(db, db.trials[0]["id"])
    compare(sc, out, calls, tree, res)
    out.probe("calls", len(calls))
    out.nontrivial = len(calls) >= 5
    if sc["depth"] is not None and not sc["fault"]:
        res = real(["-d", str(sc["depth"])])
        db = nw.dump(world)
        if out.check(len(db.trials) == 1 and db.trials[0]["finish"], "no-trial",
                     lambda: "-d %s: %s: %s" % (sc["depth"], res.brief(), res.err[-1000:])):
            short = Tree(db, db.trials[0]["id"])
            limit = sc["depth"] + 1
            one, two = tree.shape(limit), short.shape(limit)
            out.check(not [i for i in short.act if short.level(i) > limit], "too-deep",
                      lambda: "-d %d records level %d" % (sc["depth"], max(short.level(i) for i in short.act)))
            out.check([r[:2] for r in one] == [r[:2] for r in two], "depth-shape", lambda: "-d %d: %s" % (
                sc["depth"], first([r[:2] for r in one], [r[:2] for r in two])))
            out.check(one == two or [r[:2] for r in one] != [r[:2] for r in two], "depth-values", lambda: "-d %d: %s" % (
                sc["depth"], first(one, two)))
    out.note(len(calls), len(tree.act), res.brief())
    out.signature = [sc["program"], sc["depth"], sc["save"], sc["fault"]]


def first(one, two):
    for a, b in zip(one, two):
        if a != b:
            return "full %r, limited %r" % (a, b)
    return "full has %d, limited %d: %r" % (len(one), len(two), (one + two)[min(len(one), len(two))])


def compare(sc, out, calls, tree, res):
    found = tree.functions
    names = [tree.act[i]["name"] for i in found]
    want = [r["name"] for r in calls]
    if not out.check(names == want, "calls", lambda: "calls %s are recorded as %s" % difference(want, names)):
        return
    number = dict((ident, n) for n, ident in enumerate(found))
    for rec, ident in zip(calls, found):
        what = "call %d of %d, %s(%s)" % (rec["number"], len(calls), rec["name"], rec["args"])
        if not rec["loose"]:
            caller = tree.caller(ident)
            out.check(number.get(caller) == rec["parent"], "caller", lambda: "%s: made by call %s, recorded under %s" % (
                what, rec["parent"], number.get(caller)))
        if rec["started"]:
            have = tree.params.get(ident, {})
            for name, value in sorted(rec["args"].items()):
                out.check(value is None or plain(value) in [plain(v) for v in have.get(name, [])], "argument",
                          lambda: "%s: %s is %s, recorded %s" % (what, name, value, have.get(name)))
        if rec["end"] == "returned" and rec["ret"] is not None:
            value = tree.eva[ident]["repr"]
            out.check(plain(value) == plain(rec["ret"]), "return", lambda: "%s: returned %s, recorded %s" % (
                what, rec["ret"], value))


def difference(want, have):
    same = 0
    while same < min(len(want), len(have)) and want[same] == have[same]:
        same += 1
    return ("...%s (%d)" % (want[max(same - 2, 0):same + 6], len(want)),
            "...%s (%d)" % (have[max(same - 2, 0):same + 6], len(have)))
