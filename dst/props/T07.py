"""Every file access is recorded with its real mode, content and caller."""
import errno
import os
import random
import sys

from . import common as c
from . import nw
from . import programs as g
from . import T06
from .T05 import ACTS, script_ops

ID = "T07"
LEVEL = "exploration"
NOTE = ("generated scripts that use files by their path, with faults in their own operations; the reference is the script "
        "with the open functions and its own functions wrapped by a recorder")
RUNS = {"quick": 260, "thorough": 8000}
AUDIT = 10
RULE = ("A case is a generated script of functions that open, read, write, append, update, create, truncate, rename and "
        "remove files by every open function, some of which fail. It runs once under a reference recorder that wraps the "
        "open functions, and once by `now run` with generated engine, save frequency and depth, in part with the same disk "
        "error in the same operation of the script. The recorded accesses are, in order, those of the reference, with "
        "equal name and mode, the contents that the reference read before the open and at the end of the call that opened, "
        "and the activation of that call. Non-trivial: four or more accesses.")
REAL = c.REAL_ALL + ["the generated script"]
STUBS = ["clock", "getrandom", "outcome of faulted system calls", "multiprocessing (parallel engines)"]
ASSUMES = ["files opened by descriptor are not recorded"]

NAMES = ["a.txt", "b.bin", "sub/c.txt", "sp ace.txt", "\u00fcn\u00ef.txt", ".hidden", "d.csv", "link.txt"]
HOW = ["open", "open", "open", "io", "codecs", "os", "path", "kw", "alias", "partial", "bytes", "abs", "dot"]
MODES = ["r", "r", "w", "a", "r+", "w+", "a+", "x", "rb", "wb", "ab", "rb+", "rt", "default"]
BODY = {"def": 5, "gen": 1, "lambda": 1, "method": 2, "raiser": 1, "class": 1, "rec": 1}


def generate(rng, index):
    return {"program": rng.randrange(10 ** 9), "size": rng.choice([1, 2, 3, 3, 4]), "keep": None,
            "engine": nw.pick_engine(rng, .15), "save": rng.choice([None, None, 1, 5, 20]),
            "call_save": rng.choice([None, None, None, 1, 3]), "tick": rng.choice([1000, 10 ** 5]),
            "depth": rng.choice([None, None, None, 0, 1, 2]),
            "fault": [rng.randrange(10 ** 6), rng.choice(ACTS)] if rng.random() < .3 else None,
            "seed": rng.randrange(10 ** 6)}


def simplify(sc):
    total = len(statements(sc)[1])
    keep = sc["keep"] if sc["keep"] is not None else list(range(total))
    for part in c.drop_each(keep):
        yield dict(sc, keep=part)
    for key, plain in (("fault", None), ("engine", "plain"), ("save", None), ("call_save", None), ("tick", 1000),
                       ("depth", None)):
        if sc[key] != plain:
            yield dict(sc, **{key: plain})


# ------------------------------------------------------------------- the script
HEAD = """import codecs, functools, io, os, pathlib, shutil
my_open = open
part_open = functools.partial(open, encoding='latin-1')
kept = []
def opener(path, flags):
    return os.open(path, flags)
"""


def one_open(rng, number):
    """Statements that open a file once."""
    name, how, mode = rng.choice(NAMES), rng.choice(HOW), rng.choice(MODES)
    text = ascii(name)
    data = ascii("%d-%s" % (number, "".join(rng.choice("abc\u00e9\n") for _ in range(rng.randrange(12)))))
    if rng.random() < .1:
        data = "'%s' * %d" % (rng.choice("xy"), rng.choice([1000, 9000, 70000]))
    binary = "b" in mode
    if how == "os":
        flags = rng.choice(["os.O_RDONLY", "os.O_WRONLY", "os.O_RDWR", "os.O_WRONLY | os.O_CREAT",
                            "os.O_WRONLY | os.O_CREAT | os.O_TRUNC", "os.O_RDWR | os.O_CREAT",
                            "os.O_WRONLY | os.O_APPEND", "os.O_WRONLY | os.O_CREAT | os.O_EXCL"])
        use = "os.read(h, 9)" if "O_RDONLY" in flags else "os.write(h, %s.encode('utf-8'))" % data
        extra = rng.choice(["", ", 0o600"])
        return ["h = os.open(%s, %s%s)" % (text, flags, extra), "try:", "    " + use, "finally:", "    os.close(h)"]
    if mode == "default":
        args, mode = "%s", "r"
    elif how == "kw":
        args = rng.choice(["file=%%s, mode=%r", "%%s, mode=%r", "%%s, %r, -1", "%%s, %r, buffering=512"]) % mode
    else:
        args = "%%s, %r" % mode
    if not binary and how not in ("codecs", "partial", "path"):
        args += ", encoding='utf-8'"
    call = {"io": "io.open(%s)", "codecs": "codecs.open(%s)", "alias": "my_open(%s)", "partial": "part_open(%s)"
            }.get(how, "open(%s)")
    if how == "partial" and binary:
        call = "open(%s)"
    if how == "codecs" and not binary:
        args += ", encoding='utf-8'"
        args = args.replace("file=", "")
    if how == "path":
        call = "pathlib.Path(%s).open(" + args.split(", ", 1)[1] + ")" if ", " in args else "pathlib.Path(%s).open()"
        args = "%s"
        if not binary:
            call = call[:-1] + (", " if not call.endswith("(") and not call.endswith("()") else "") + "encoding='utf-8')"
    if how == "bytes":
        text = "%a.encode('utf-8')" % name
    elif how == "abs":
        text = "os.path.abspath(%a)" % name
    elif how == "dot":
        text = rng.choice(["'./' + %a", "os.path.join('sub', '..', %a)", "pathlib.Path(%a)"]) % name
    expr = call % (args % text)
    value = data + (".encode('utf-8')" if binary else "")
    if how == "partial" and not binary:
        value = "'l%d'" % number
    if mode.startswith("r") and "+" not in mode:
        use = rng.choice(["f.read()", "list(f)", "f.readline()", "pass"])
    elif "+" in mode:
        use = rng.choice(["f.write(%s)", "f.seek(0, 2); f.write(%s)", "f.truncate(2); f.write(%s)"]) % value
    else:
        use = rng.choice(["f.write(%s)", "f.write(%s); f.flush(); f.write(%s)" % ("%s", value), "pass #%s"]) % value
    style = rng.random()
    if style < .55:
        return ["with %s as f:" % expr, "    " + use]
    if style < .8:
        return ["f = %s" % expr, "try:", "    " + use, "finally:", "    f.close()"]
    return ["kept.append(%s)" % expr, "f = kept[-1]", use, "f.flush()"]


def other(rng, number):
    """Statements that change files without an open of the script."""
    one, two = rng.choice(NAMES), rng.choice(NAMES)
    return rng.choice([["os.remove(%a)" % one], ["os.rename(%a, %a)" % (one, two)], ["os.truncate(%a, 1)" % one],
                       ["os.makedirs('new', exist_ok=True)"], ["open('missing/%d.txt')" % number], ["open('sub')"],
                       ["open(%a, 'zz')" % one], ["shutil.copyfile(%a, 'copy%d')" % (one, number)],
                       ["os.close(os.open('.', os.O_RDONLY))"],
                       ["open(None)"], ["pathlib.Path(%a).write_text('w%d')" % (one, number)],
                       ["pathlib.Path(%a).read_bytes()" % one], ["for k in kept:", "    k.close()", "kept.clear()"],
                       ["os.chdir('sub')", "try:", "    with open('c.txt', 'a') as f:", "        f.write('in')",
                        "finally:", "    os.chdir('..')"],
                       ["with open(%a) as f, open(%a, 'a') as h:" % (one, two), "    h.write(f.read()[:20])"]])


def block(rng, count, calls, base):
    """Statements, each guarded; numbered for simplification."""
    rows = []
    for i in range(count):
        pick = rng.random()
        if calls and pick < .35:
            rows.append([rng.choice(calls)])
        elif pick < .8:
            rows.append(one_open(rng, base + i))
        else:
            rows.append(other(rng, base + i))
    return rows


def statements(sc):
    """(render function, all statements) of the script."""
    rng = random.Random(sc["program"])
    kinds, bodies, total, calls = [], [], [], []
    for number in range(sc["size"]):
        kind = rng.choice([k for k, n in sorted(BODY.items()) for _ in range(n)])
        rows = block(rng, rng.randrange(1, 5), list(calls), number * 10)
        kinds.append(kind)
        bodies.append((len(total), len(rows)))
        total.extend(rows)
        name = "f%d" % number
        calls.extend({"gen": ["print(list(%s(1)))", "next(%s(2))", "for q in %s(3):\n    my_open('a.txt').close()"],
                      "lambda": ["print(%s(2))"], "method": ["C%s().go(3)", "C%s.st(4)"], "class": ["make%s()"],
                      "rec": ["%s(2)", "%s(0)"]}.get(kind, ["%s(1)", "print(%s(7))", "list(map(%s, [1, 2]))",
                                                            "max([1, 2], key=%s)"]))
        calls[:] = [x if "%" not in x else x % name for x in calls]
    main = block(rng, rng.randrange(2, 7), calls, 100)
    if calls:
        main += [[rng.choice(calls)] for _ in range(3)]
    start = len(total)
    total.extend(main)
    end = rng.choice(["", "", "", "", "raise ValueError('end')\n", "import sys\nsys.exit(3)\n"])
    keep = set(range(len(total)) if sc["keep"] is None else sc["keep"])

    def rendered(first, count):
        text = ""
        for i in range(first, first + count):
            if i in keep:
                inner = "".join(g.indent(line + "\n", "    ") for line in total[i])
                text += "try:\n%sexcept (OSError, ValueError, TypeError, LookupError) as exc:\n" \
                        "    print(type(exc).__name__)\n" % inner
        return text or "pass\n"

    def render():
        text = HEAD
        for number, (kind, (first, count)) in enumerate(zip(kinds, bodies)):
            body = rendered(first, count)
            if kind == "gen":
                half = count // 2
                body = rendered(first, half) + "yield 1\n" + rendered(first + half, count - half) + "yield 2\n"
            elif kind == "rec":
                body = "if x > 0:\n    f%d(x - 1)\n%sreturn x\n" % (number, body)
            elif kind == "raiser":
                body += "if x == 7:\n    raise KeyError(x)\nreturn 0\n"
            elif kind not in ("lambda",):
                body += "return x\n"
            if kind == "lambda":
                text += "def w%d(x):\n%sf%d = lambda x: (w%d(x), my_open('d.csv', 'a').close())\n" % (
                    number, g.indent(body, "    "), number, number)
            elif kind == "method":
                text += "class Cf%d(object):\n    def go(self, x):\n%s    @staticmethod\n    def st(x):\n%s" % (
                    number, g.indent(body, "        "), g.indent("return Cf%d().go(x)\n" % number, "        "))
            elif kind == "class":
                text += "def makef%d(x=0):\n    class K(object):\n%s    return x\n" % (
                    number, g.indent(rendered(first, count), "        "))
            else:
                text += "def f%d(x):\n%s" % (number, g.indent(body, "    "))
        return text + rendered(start, len(main)) + "for k in kept:\n    k.close()\n" + end
    return render, total


# ---------------------------------------------------------------- the reference
def content_of(path):
    """What is in a regular file, or None."""
    try:
        if not os.path.isfile(path):
            return None
        with REAL_OPEN(path, "rb") as fil:
            return fil.read()
    except OSError:
        return None


REAL_OPEN = open


def flags_mode(flags):
    """(may read, may write, appends) of open flags or of a mode."""
    if isinstance(flags, int):
        access = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        return access != os.O_WRONLY, access != os.O_RDONLY, bool(flags & os.O_APPEND)
    return None


class Recorder(T06.Recorder):
    """Records the successful opens too."""

    def __init__(self, path):
        super().__init__(path)
        self.opens, self.inside, self.open_by = [], 0, {}

    def parent_call(self):
        """The call of the script that is the nearest in the stack."""
        frame = sys._getframe(2)
        while frame is not None:
            if frame.f_code.co_filename == self.path:
                found = self.frames.get(id(frame))
                if found:
                    return found[1]
                back = frame.f_back
                if back is not None and back.f_code is self.code and "rec" in back.f_locals:
                    return back.f_locals["rec"]["number"]
                if frame.f_code.co_name == "<module>":
                    return None
            frame = frame.f_back
        return None

    def wrap(self, function):
        inner = super().wrap(function)
        code = self.code
        import functools

        @functools.wraps(function)
        def with_end(*args, **kwargs):
            mark = len(self.calls)
            try:
                return inner(*args, **kwargs)
            finally:
                if len(self.calls) > mark:
                    self.ended(self.calls[mark]["number"])
        self.code = code
        return with_end

    def ended(self, number):
        for access in self.open_by.pop(number, ()):
            access["after"] = content_of(access["path"])

    def opener(self, real, is_os=False):
        def opened(*args, **kwargs):
            name = args[0] if args else kwargs.get("file", kwargs.get("filename", kwargs.get("path")))
            if self.inside or isinstance(name, int):
                return real(*args, **kwargs)
            try:
                path = os.path.abspath(os.fsdecode(name))
            except TypeError:
                return real(*args, **kwargs)
            before = content_of(path)
            self.inside += 1
            try:
                result = real(*args, **kwargs)
            finally:
                self.inside -= 1
            mode = (args[1] if len(args) > 1 else kwargs["flags"]) if is_os else (
                args[1] if len(args) > 1 else kwargs.get("mode", "rb" if False else "r"))
            number = until = self.parent_call()
            while until is not None and self.calls[until]["end"] is not None:
                until = self.calls[until]["parent"]      # the call to a generator ends before its body
            access = {"name": os.fsdecode(name), "path": path, "mode": mode, "before": before, "after": None,
                      "call": number}
            self.opens.append(access)
            self.open_by.setdefault(until, []).append(access)
            return result
        return opened


def reference(script):
    """Body of a process: the script, with its calls and opens recorded."""
    import builtins
    import codecs
    import io
    import traceback
    path = os.path.realpath(script)
    recorder = Recorder(path)
    builtins.__ref__ = recorder.wrap
    real = builtins.compile

    def compiled(text, name, mode, **kw):
        if name == path and isinstance(text, bytes):
            import ast
            tree = ast.fix_missing_locations(T06.Wrap().visit(ast.parse(text)))
            code = real(tree, name, mode, **kw)
            for module, attr in OPENS(builtins, io, codecs):
                setattr(module, attr, recorder.opener(getattr(module, attr), module is os))
            return code
        return real(text, name, mode, **kw)
    saved = [(module, attr, getattr(module, attr)) for module, attr in OPENS(builtins, io, codecs)]
    g.compile = compiled
    error = None
    try:
        g.plain_run(script)
    except SystemExit:
        pass
    except BaseException:
        error = traceback.format_exc()
    finally:
        for module, attr, value in saved:
            setattr(module, attr, value)
    for number in list(recorder.open_by):
        recorder.ended(number)
    return recorder.calls, recorder.opens, error


def OPENS(builtins, io, codecs):
    return [(builtins, "open"), (io, "open"), (codecs, "open"), (os, "open")]


def install(world):
    world.write("a.txt", b"first\nsecond\n")
    world.write("b.bin", bytes(range(256)) + b"\r\n\x00")
    world.write("sub/c.txt", b"in sub\r\n")
    world.write("d.csv", b"1,2\n3,4\n")
    link(world)


def link(world):
    """Snapshots do not have links."""
    if os.path.lexists(world.path("link.txt")):
        os.unlink(world.path("link.txt"))
    os.symlink("a.txt", world.path("link.txt"))


def execute(sc, env, out):
    world = env.world()
    install(world)
    text = statements(sc)[0]()
    world.write("s.py", text.encode())
    os.unlink(world.path("link.txt"))
    snap = world.snapshot()
    link(world)
    options = ["-s", str(sc["save"])] if sc["save"] else []
    options += ["-S", str(sc["call_save"])] if sc["call_save"] else []
    options += ["-d", str(sc["depth"])] if sc["depth"] is not None else []

    def real(faults=()):
        world.restore(snap)
        link(world)
        world.clock.tick = sc["tick"]
        res = nw.now(world, out, sc["engine"], "run", *(options + ["s.py"]), seed=sc["seed"], faults=faults)
        world.clock.tick = 1000
        return res
    faults = real_faults = ()
    if sc["fault"]:
        plain_res = out.proc(world.run(reference, ("s.py",)))
        kinds = script_ops(world, [(op[2], op[3], op[5]) for op in plain_res.ops if op[0] == "W"])
        mine = script_ops(world, real().kinds)
        if kinds and [k[1:3] for k in kinds] == [k[1:3] for k in mine]:
            number, act = sc["fault"][0] % len(kinds), sc["fault"][1]
            if act == "short" and kinds[number][1] != "write":
                act = "EIO"
            fault = {"act": "short", "param": 300} if act == "short" else {"act": "errno", "param": getattr(errno, act)}
            faults = [dict(fault, op=kinds[number][0])]
            real_faults = [dict(fault, op=mine[number][0])]
            out.probe("io_fault")
        world.restore(snap)
        link(world)
    ref = out.proc(world.run(reference, ("s.py",), faults=faults))
    if ref.value is None or not isinstance(ref.value, (tuple, list)):
        out.note("no reference", ref.brief(), ref.err[-300:])
        return
    calls, opens, error = ref.value
    if error and "ValueError: end" not in error:
        out.note("the script failed", error[-300:])
    res = real(faults=real_faults)
    db = nw.dump(world)
    if not out.check(len(db.trials) == 1 and db.trials[0]["finish"], "no-trial",
                     lambda: "%s: %s" % (res.brief(), res.err[-1000:])):
        return
    trial = db.trials[0]["id"]
    rows = sorted(db.of("file_access", trial), key=lambda r: r["id"])
    hashes = sorted(set(h for r in rows for h in (r["content_hash_before"], r["content_hash_after"]) if h))
    got = c.run(world, out, sc["engine"], nw.read_contents, (sc["engine"], hashes)).value or {}
    compare(sc, out, world.path(), calls, opens, rows, got, T06.Tree(db, trial), res)
    out.probe("accesses", len(opens))
    out.nontrivial = len(opens) >= 4
    out.note(len(opens), len(rows), res.brief())
    out.signature = [sc["program"], sc["size"], sc["depth"], sc["save"], sc["fault"]]


def same_file(root, name, access):
    """The recorded name may be relative to the folder of the script."""
    return os.path.normpath(os.path.join(root, name)) == access["path"]


def compare(sc, out, root, calls, opens, rows, got, tree, res):
    want = [a["name"] for a in opens]
    have = [r["name"] if number >= len(opens) or not same_file(root, r["name"], opens[number]) else want[number]
            for number, r in enumerate(rows)]
    if not out.check(want == have, "accesses", lambda: "%d opens are recorded as %d: %s\n%s" % (
            len(want), len(have), T06.difference(want, have), res.err[-300:])):
        return
    number = None
    if sc["depth"] is None and [tree.act[i]["name"] for i in tree.functions] == [r["name"] for r in calls]:
        number = dict((ident, n) for n, ident in enumerate(tree.functions))
    for pos, (access, row) in enumerate(zip(opens, rows)):
        what = "open %d of %d, %r %r in call %s" % (pos, len(opens), access["name"], access["mode"], access["call"])
        if isinstance(access["mode"], int):
            mode = row["mode"]
            seen = ("w" not in mode or "+" in mode, "w" in mode or "+" in mode, "a" in mode.split("(")[0])
            out.check(seen == flags_mode(access["mode"]), "os-mode", lambda: "%s: mode %r" % (what, mode))
        else:
            out.check(row["mode"] == access["mode"], "mode", lambda: "%s: recorded mode %r" % (what, row["mode"]))
        keys = ["before"] if sc["depth"] is not None else ["before", "after"]
        for key in keys:
            ident = row["content_hash_" + key]
            value = got.get(ident) if ident else None
            out.check(value == access[key], key, lambda: "%s: the content %s is %s, recorded %s" % (
                what, key, brief(access[key]), brief(value)))
        act = row["activation_id"]
        if not out.check(act in tree.act, "no-activation", lambda: "%s: activation %s is not recorded" % (what, act)):
            continue
        if number is not None:
            if act not in number and tree.type_of(act) not in ("script", "module"):
                act = tree.caller(act)
            out.check(number.get(act) == access["call"], "caller", lambda: "%s: recorded under call %s (%s)" % (
                what, number.get(act), tree.act[row["activation_id"]]["name"]))


def brief(value):
    if isinstance(value, bytes):
        return "%r (%d bytes)" % (value[:40], len(value))
    return repr(value)
