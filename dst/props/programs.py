"""Generated scripts: a list of snippets, each a template with parameters.

A program is JSON: {"snippets": [[template, place, p1, p2, p3], ...], "end": ...}
where place is "top", "func" (inside a called function) or "method".  QQ is the
number of the snippet, so that names never clash, and P1..P3 small numbers.
The templates stay within what the collector supports: the features it is
known not to support are listed in known_findings.json of T05, each with its
own script."""
import re

# name -> (tags, text).  Tags: "top" only at top level; "file" touches files;
# "call" calls functions of the script; "mod" imports local modules
T = {}


def t(name, tags, text):
    T[name] = (set(tags.split()), text.strip("\n") + "\n")


# ------------------------------------------------------------- computation
t("arith", "", """
aQQ = P1 + 3
bQQ = aQQ * P2 - P3
cQQ = (aQQ + bQQ) // 2 % 7
print('arith', aQQ, bQQ, cQQ, -aQQ, aQQ ** 2, aQQ << 1, aQQ & 3, ~bQQ)
""")
t("strings", "", """
sQQ = 'a' * P1 + "b"
tQQ = f"{sQQ!r:>6} {P2 + 1} {sQQ.upper()}"
print('strings', tQQ, '%s-%d' % (sQQ, P3), '{} {x}'.format(1, x=sQQ), 'h\\u00e9')
""")
t("lists", "", """
xQQ = list(range(P1 + 3))
xQQ[1:2] = [P2, P3]
xQQ += [9]
xQQ[0] += 5
yQQ = xQQ
yQQ.append(1)
print('lists', xQQ, yQQ[::2], yQQ[-1], len(xQQ), sorted(xQQ, reverse=True))
""")
t("dicts", "", """
dQQ = {'k': P1, 'z': {'b': [P2, 2]}}
dQQ['k'] -= 4
dQQ['z']['c'] = dQQ['z']['b'][0]
dQQ.setdefault('n', []).append(P3)
print('dicts', sorted(dQQ.items(), key=str), 'k' in dQQ, dQQ.get('q'))
del dQQ['k']
print('dicts', len(dQQ))
""")
t("unpack", "", """
aQQ, *bQQ = [P1, 2, 3]
(cQQ, dQQ), eQQ = (1, P2), 3
for iQQ, (jQQ, kQQ) in enumerate([(1, 2), (P3, 4)]):
    print('unpack', iQQ, jQQ, kQQ)
print('unpack', aQQ, bQQ, cQQ, dQQ, eQQ, [*bQQ, 4], {**{'a': 1}, 'b': 2})
""")
t("loops", "", """
nQQ = P1 + 2
while nQQ:
    nQQ -= 1
    if nQQ == 1:
        continue
    if nQQ > 8:
        break
    print('loops', nQQ)
else:
    print('loops else')
for iQQ in range(P2):
    for jQQ in range(2):
        nQQ += iQQ * jQQ
print('loops', nQQ)
""")
t("conds", "", """
xQQ = P1
print('conds', 'a' if xQQ > 2 else 'b', xQQ > 1 and xQQ < 5, not xQQ, 0 <= xQQ <= 3, xQQ in [P2], xQQ is None)
if xQQ == P2:
    print('same')
elif xQQ < P3:
    print('less')
else:
    print('more')
""")
t("compr", "", """
print('compr', [iQQ * 2 for iQQ in range(P1) if iQQ], {kQQ: vQQ for kQQ, vQQ in [(1, P2)]},
      sorted({iQQ % 2 for iQQ in range(4)}), [[iQQ * jQQ for jQQ in range(2)] for iQQ in range(2)],
      sum(qQQ for qQQ in range(P3)))
""")
t("walrus", "", """
if (nQQ := P1) > 1:
    print('walrus', nQQ)
print('walrus', 3 if nQQ else 4)
""")
t("imports", "", """
import os.path as pQQ
from math import sqrt as sQQ, floor
print('imports', pQQ.join('a', 'b'), sQQ(4), floor(P1 / 2))
""")
t("collections", "", """
from collections import namedtuple, OrderedDict, Counter
pQQ = namedtuple('P', 'a b')(P1, P2)
print('coll', pQQ.a, pQQ, list(OrderedDict([(1, 2)])), sorted(Counter('aab').items()))
""")
t("deletes", "", """
xQQ = [1, 2, P1]
del xQQ[0]
yQQ = 1
del yQQ
print('del', xQQ)
""")
t("aliases", "", """
aQQ = bQQ = [P1]
bQQ.append(P2)
cQQ = {'x': aQQ}
cQQ['x'].append(P3)
print('alias', aQQ, bQQ is aQQ, cQQ)
""")
t("asserts", "", """
try:
    assert P1 == 99, 'msg'
except AssertionError as excQQ:
    print('assert', excQQ)
""")
t("sysout", "", """
import sys
sys.stdout.write('w P1\\n')
print('e', file=sys.stderr)
print('args', sys.argv[1:])
""")
t("json", "", """
import json
print('json', json.dumps({'a': [P1, None, True]}, sort_keys=True), json.loads('[1, {"b": P2}]'))
""")
t("sortkey", "", """
print('sortkey', sorted([3, P1, 2], key=lambda q: -q), max([P2, 1], key=abs), list(map(str, [P3])))
""")
t("docstring", "", """
def fQQ():
    "doc P1"
    pass
print('doc', fQQ.__doc__, fQQ.__name__, fQQ())
""")
t("longloop", "", """
totalQQ = 0
for iQQ in range(10 + P1 * 7):
    totalQQ += iQQ
print('total', totalQQ)
""")

# -------------------------------------------------------------------- calls
t("call", "call", """
def fQQ(x, y=P1):
    return x * y + 1
print('call', fQQ(2), fQQ(P2, y=3), fQQ(fQQ(1), fQQ(P3)))
""")
t("chain", "call", """
def gQQ(x):
    return x + P1
def hQQ(x):
    return gQQ(x) * 2
def kQQ(x):
    yQQ = hQQ(x)
    return gQQ(yQQ) - hQQ(P2)
print('chain', kQQ(P3))
""")
t("recur", "call", """
def recQQ(n):
    if n <= 0:
        return 0
    return n + recQQ(n - 1)
print('recur', recQQ(P1 + 2))
""")
t("mutual", "call", """
def evenQQ(n):
    return True if n == 0 else oddQQ(n - 1)
def oddQQ(n):
    return False if n == 0 else evenQQ(n - 1)
print('mutual', evenQQ(P1 + 1))
""")
t("fib", "call", """
def fibQQ(n):
    return n if n < 2 else fibQQ(n - 1) + fibQQ(n - 2)
print('fib', fibQQ(P1 % 4 + 2))
""")
t("starargs", "call", """
def fQQ(a, b=2, *c, d=4, **e):
    return (a, b, c, d, sorted(e.items()))
print('star', fQQ(1), fQQ(1, P1, 5, 6, d=7, z=P2), fQQ(*[1, P3], **{'q': 3}))
""")
t("kwonly", "call", """
def fQQ(a, *, b=P1, c):
    return a - b * c
print('kwonly', fQQ(1, c=P2), fQQ(2, b=3, c=P3))
""")
t("defaults", "call", """
def fQQ(acc=[]):
    acc.append(P1)
    return acc
fQQ()
print('defaults', fQQ(), fQQ([]))
""")
t("noreturn", "call", """
def fQQ(x):
    if x > P1:
        return
    print('noreturn', x)
print(fQQ(1), fQQ(99))
""")
t("lambdas", "call", """
lQQ = lambda x, y=P1: x + y
print('lambda', lQQ(1), list(map(lambda z: z * P2, [1, 2])))
""")
t("closure", "call", """
def outerQQ(n):
    cQQ = [n]
    def inner(k):
        cQQ[0] += k
        return cQQ[0]
    return inner
iQQ = outerQQ(P1)
print('closure', iQQ(1), iQQ(P2), outerQQ(P3)(4))
""")
t("nonlocals", "call", """
def outQQ():
    n = P1
    def inc():
        nonlocal n
        n += 1
        return n
    inc()
    inc()
    return n
print('nonlocal', outQQ())
""")
t("globals", "call top", """
gvQQ = P1
def bumpQQ():
    global gvQQ
    gvQQ += 1
    return gvQQ
print('global', bumpQQ(), bumpQQ(), gvQQ)
""")
t("decorator", "call", """
def decQQ(f):
    def wrapped(*a, **k):
        return f(*a, **k) + P1
    return wrapped
@decQQ
def gQQ(x, y=2):
    return x * y
print('decorator', gQQ(3), gQQ(P2, y=4))
""")
t("generator", "call gen", """
def genQQ(n):
    for i in range(n):
        yield i * P1
print('generator', list(genQQ(3)), sum(x for x in genQQ(P2)))
for vQQ in genQQ(2):
    print('generator', vQQ)
""")
t("sendgen", "call gen", """
def genQQ():
    x = yield P1
    print('got', x)
    yield from [3, P2]
    return 9
hQQ = genQQ()
print(next(hQQ))
print(hQQ.send(5))
print(list(hQQ))
""")
t("genfin", "call gen", """
def genQQ():
    try:
        yield 1
        yield P1
    finally:
        print('genfin closed')
hQQ = genQQ()
print('genfin', next(hQQ))
hQQ.close()
""")
t("raising", "call", """
def badQQ(x):
    return P1 // x
def tryQQ(x):
    try:
        return badQQ(x)
    except ZeroDivisionError as exc:
        print('zero', exc)
        return -1
    finally:
        print('fin', x)
print('raising', tryQQ(2), tryQQ(0), tryQQ(P2 + 1))
""")
t("raisedeep", "call", """
def lowQQ(x):
    if x == P1:
        raise KeyError(x)
    return x
def midQQ(x):
    return lowQQ(x) + lowQQ(x + 1)
for iQQ in range(P1 + 1):
    try:
        print('deep', midQQ(iQQ))
    except KeyError as excQQ:
        print('caught', excQQ)
print('after', lowQQ(P1 + 1))
""")
t("reraise", "call", """
def failQQ():
    raise ValueError('P1')
def relayQQ():
    try:
        failQQ()
    except ValueError as exc:
        raise KeyError('k') from exc
try:
    relayQQ()
except KeyError as excQQ:
    print('reraise', repr(excQQ), repr(excQQ.__cause__))
""")
t("customexc", "call top", """
class ErrQQ(Exception):
    pass
def fQQ():
    raise ErrQQ('q P1')
try:
    fQQ()
except ErrQQ as excQQ:
    print('custom', excQQ)
""")
t("retfin", "call", """
def fQQ():
    try:
        return P1
    finally:
        print('x')
def gQQ():
    while True:
        try:
            break
        finally:
            print('y')
    return P2
print('retfin', fQQ(), gQQ())
""")
t("loopexc", "call", """
def fQQ():
    for i in range(3):
        try:
            if i == P1 % 3:
                raise KeyError(i)
            print('loopexc', i)
        except KeyError:
            continue
        else:
            print('el')
        finally:
            print('f')
fQQ()
""")
t("methods", "call top", """
class AQQ(object):
    z = P1
    def __init__(self, v):
        self.v = v
    def m(self, x=2):
        return self.v * x + self.z
    @property
    def p(self):
        return self.v
    @staticmethod
    def s(a):
        return a + 1
    @classmethod
    def c(cls, a):
        return cls(a)
class BQQ(AQQ):
    def m(self, x=3):
        return super(BQQ, self).m(x) + 1
aQQ = BQQ(P2)
print('methods', aQQ.m(), aQQ.p, AQQ.s(P3), AQQ.c(7).v)
""")
t("operators", "call top", """
class VQQ:
    def __init__(self, x):
        self.x = x
    def __add__(self, o):
        return VQQ(self.x + o.x)
    def __getitem__(self, i):
        return self.x * i
    def __call__(self, z):
        return z + self.x
    def __lt__(self, o):
        return self.x < o.x
aQQ = VQQ(P1) + VQQ(2)
print('operators', aQQ.x, aQQ[P2], aQQ(1), aQQ < VQQ(9))
""")
t("context", "call top", """
class MQQ:
    def __enter__(self):
        print('in')
        return P1
    def __exit__(self, *a):
        print('out', a[0])
        return True
with MQQ() as mQQ:
    print('context', mQQ)
    raise ValueError('s')
print('after context')
""")
t("ctxmanager", "call gen", """
from contextlib import contextmanager
@contextmanager
def cmQQ():
    print('enter')
    try:
        yield P1
    finally:
        print('leave')
with cmQQ() as vQQ:
    print('ctx', vQQ)
""")
t("dataclass", "call top", """
from dataclasses import dataclass
@dataclass
class PQQ:
    x: int
    y: int = P1
print('dataclass', PQQ(1), PQQ(1, 2) == PQQ(1, 2))
""")
t("callback", "call", """
def applyQQ(fn, n):
    return [fn(i) for i in range(n)]
def cubeQQ(i):
    return i ** 3
print('callback', applyQQ(cubeQQ, P1), list(map(cubeQQ, [P2])), list(filter(cubeQQ, [0, P3])))
""")
t("match", "call", """
def fQQ(v):
    match v:
        case 1:
            return 'a'
        case [a, b]:
            return a + b
        case _:
            return 'z'
print('match', fQQ(P1), fQQ([2, P2]), fQQ('q'))
""")
t("cached", "call", """
import functools
@functools.lru_cache(maxsize=None)
def fibQQ(n):
    return n if n < 2 else fibQQ(n - 1) + fibQQ(n - 2)
print('cached', fibQQ(P1 + 4))
""")
t("varscope", "call", """
vQQ = P1
def fQQ(vQQ):
    vQQ = vQQ + 1
    return vQQ
print('scope', fQQ(P2), vQQ)
""")

# -------------------------------------------------------------------- files
t("fwrite", "file", """
with open('outQQ.txt', 'w') as fQQ:
    fQQ.write('line P1\\n')
    fQQ.write('more P2\\n')
print('fwrite')
""")
t("fread", "file", """
with open('in0.txt') as fQQ:
    print('fread', fQQ.read())
""")
t("fappend", "file", """
for iQQ in range(P1 % 3 + 1):
    with open('log.txt', 'a') as fQQ:
        fQQ.write('entry QQ %d\\n' % iQQ)
print('fappend')
""")
t("fupdate", "file", """
with open('upd.bin', 'wb') as fQQ:
    fQQ.write(b'abcdef' * (P1 + 1))
with open('upd.bin', 'r+b') as fQQ:
    fQQ.seek(P2 % 5)
    fQQ.write(b'Z')
    fQQ.truncate(4)
with open('upd.bin', 'rb') as fQQ:
    print('fupdate', fQQ.read())
""")
t("fcopy", "file", """
with open('in1.txt', 'rb') as fQQ, open('copyQQ.txt', 'wb') as gQQ:
    gQQ.write(fQQ.read() * (P1 % 3))
print('fcopy')
""")
t("fmissing", "file", """
try:
    open('nope/QQ.txt')
except IOError as excQQ:
    print('fmissing', excQQ.errno)
try:
    open('in0.txt', 'x')
except IOError as excQQ:
    print('fmissing', type(excQQ).__name__)
""")
t("ffunc", "file call", """
def saveQQ(name, text):
    with open(name, 'w') as f:
        f.write(text)
    return len(text)
def loadQQ(name):
    with open(name) as f:
        return f.read()
print('ffunc', saveQQ('dataQQ.txt', 'v P1'), loadQQ('dataQQ.txt'), loadQQ('in0.txt'))
""")
t("fio", "file", """
import io, codecs, os
with io.open('ioQQ.txt', 'w', encoding='utf-8') as fQQ:
    fQQ.write(u'h\\u00e9 P1')
with codecs.open('coQQ.txt', 'w', 'utf-8') as fQQ:
    fQQ.write(u'y P2')
fdQQ = os.open('osQQ.txt', os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
os.write(fdQQ, b'z P3')
os.close(fdQQ)
print('fio', os.path.getsize('osQQ.txt'))
""")
t("fgood", "file call", """
def writeQQ(name, n):
    try:
        f = open(name, 'w')
        try:
            for i in range(n):
                f.write('%d\\n' % i)
        finally:
            f.close()
        return 'ok'
    except OSError as exc:
        print('io error', exc.errno)
        return 'failed'
print('fgood', writeQQ('wQQ.txt', P1 + 1), writeQQ('nodirQQ/x.txt', 1))
""")
t("frename", "file", """
import os
with open('tmpQQ', 'w') as fQQ:
    fQQ.write('P1')
os.rename('tmpQQ', 'finalQQ.txt')
print('frename', os.path.exists('tmpQQ'), os.path.exists('finalQQ.txt'))
""")
t("fremove", "file", """
import os
with open('delQQ', 'w') as fQQ:
    fQQ.write('P1')
os.remove('delQQ')
print('fremove', os.path.exists('delQQ'))
""")
t("fsub", "file", """
import os
os.makedirs('subQQ/deep', exist_ok=True)
with open(os.path.join('subQQ', 'deep', 'f.txt'), 'w') as fQQ:
    fQQ.write('s P1')
print('fsub', sorted(os.listdir('subQQ/deep')))
""")
t("fpathlib", "file", """
import pathlib
pQQ = pathlib.Path('plQQ.txt')
pQQ.write_text('hi P1')
print('fpathlib', pQQ.read_text(), pQQ.exists())
""")
t("fcsv", "file", """
import csv
with open('tQQ.csv', 'w') as fQQ:
    csv.writer(fQQ).writerows([[1, P1], [2, P2]])
with open('tQQ.csv') as fQQ:
    print('fcsv', list(csv.reader(fQQ)))
""")
t("fnested", "file", """
with open('nestQQ.txt', 'w') as fQQ:
    fQQ.write('a')
    with open('in0.txt') as gQQ:
        fQQ.write(gQQ.read())
    fQQ.write('P1')
print('fnested')
""")
t("frewrite", "file", """
for iQQ in range(P1 % 3 + 2):
    with open('same.txt', 'w') as fQQ:
        fQQ.write('version %d of QQ' % iQQ)
with open('same.txt') as fQQ:
    print('frewrite', fQQ.read())
""")

# ------------------------------------------------------------------ modules
t("mod", "mod call top", """
import mod
print('mod', mod.triple(P1), mod.__name__)
""")
t("modfrom", "mod call top", """
from pk import sub
import pk.sub2 as qQQ
print('modfrom', sub.z, qQQ.h(P1))
""")
t("modown", "mod top", """
import own
print('modown', own.lines)
""")
t("modbad", "mod top", """
try:
    import bad
except ZeroDivisionError:
    print('modbad')
try:
    import nothereQQ
except ImportError:
    print('no module')
""")

MODULES = {
    "mod.py": "import os\n\n\ndef triple(x):\n    return helper(x) * 3\n\n\ndef helper(x):\n    return x\n",
    "pk/__init__.py": "",
    "pk/sub.py": "z = 3\n",
    "pk/sub2.py": "from . import sub\n\n\ndef h(n):\n    return sub.z + n\n",
    "bad.py": "x = 1 / 0\n",
    "own.py": "with open(__file__, 'a') as fil:\n    fil.write('# used\\n')\nwith open(__file__) as fil:\n"
              "    lines = len(fil.read().splitlines())\n",
}
INPUTS = {"data.txt": b"hello world\n", "in0.txt": b"input zero\n", "in1.txt": b"input\r\none \xc3\xa9\n"}

#: ways to end: name -> (text, exit status)
ENDS = {
    "normal": ("", 0),
    "exit0": ("import sys\nsys.exit(0)\n", 0),
    "exit": ("import sys\nsys.exit()\n", 0),
    "exit3": ("import sys\nsys.exit(3)\n", 3),
    "exitmsg": ("import sys\nsys.exit('bye')\n", 1),
    "systemexit": ("raise SystemExit(2)\n", 2),
    "exception": ("raise ValueError('the end')\n", 1),
    "deepexception": ("def last(x):\n    return 1 // x\ndef llast(x):\n    return last(x - 1)\nllast(1)\n", 1),
    "keyboard": ("raise KeyboardInterrupt()\n", 130),
    "exitdeep": ("import sys\ndef bye(n):\n    if n:\n        bye(n - 1)\n    sys.exit(4)\nbye(2)\n", 4),
    "exitcaught": ("import sys\ntry:\n    sys.exit(5)\nexcept SystemExit:\n    print('stays')\n", 0),
    "name": ("undefined_name\n", 1),
    "baseexc": ("class Stop(BaseException):\n    pass\nraise Stop(1)\n", 1),
    "genexit": ("raise GeneratorExit()\n", 1),
}


t("condraise", "call", """
def condQQ(n):
    try:
        [][n]
    except IndexError:
        if n == P1:
            raise
        elif n == P2 + 5:
            raise ValueError('x')
        else:
            print('else', sysQQ.exc_info()[0].__name__)
import sys as sysQQ
for iQQ in range(7):
    try:
        condQQ(iQQ)
    except Exception as excQQ:
        print(type(excQQ).__name__, type(excQQ.__context__).__name__)
""")
t("deepif", "call", """
def deepQQ(v):
    if v:
        if v > 1:
            if v > 2:
                if v > 3:
                    if v > 4:
                        if v > 5:
                            if v > 6:
                                return 'deep'
                    elif v < 0:
                        return 'never'
                    else:
                        return 'four'
    return 'shallow'
print(deepQQ(9), deepQQ(P1), deepQQ(P2))
""")
t("flowif", "call", """
def flowQQ(n):
    for iQQ in range(n):
        if iQQ == 1:
            continue
        elif iQQ == 4:
            break
        yield iQQ
    else:
        print('whole')
    while iQQ:
        iQQ -= 1
        if iQQ == P2:
            continue
        yield -iQQ
print(list(flowQQ(P1 + 1)))
""")
t("bareexcept", "call", """
def bareQQ(n):
    try:
        if n > 2:
            raise KeyboardInterrupt
        raise SystemExit(3)
    except:
        return 'bare'
print(bareQQ(P1))
try:
    if P1 // 0:
        print('no')
except ZeroDivisionError:
    print('zero')
try:
    while P1 // 0:
        print('no')
except ZeroDivisionError:
    print('zero')
""")


# ---------------------------------------------------------- language features
t("lang_async", "top", r"""
import asyncio
async def f(x):
    await asyncio.sleep(0)
    return x+1
async def main():
    r = await asyncio.gather(f(1), f(2))
    print(r)
asyncio.run(main())
""")
t("lang_asyncgen", "top", r"""
import asyncio
async def g():
    yield 1
    yield 2
async def main():
    async for x in g():
        print(x)
    print("done")
asyncio.run(main())
""")
t("lang_asyncwith", "top", r"""
import asyncio
class C:
    async def __aenter__(self): return 3
    async def __aexit__(self,*a): print('exit')
async def main():
    async with C() as x:
        print(x)
asyncio.run(main())
""")
t("lang_exceptstar", "top", r"""
try:
    raise ExceptionGroup('g',[ValueError(1),TypeError(2)])
except* ValueError as e:
    print('v', e.exceptions)
except* TypeError as e:
    print('t')
""")
t("lang_matchcls", "top", r"""
class P:
    __match_args__=('x',)
    def __init__(s,x): s.x=x
def f(o):
    match o:
        case P(3): return 'three'
        case P(x) if x > 5: return 'big'
        case [a,*b]: return b
        case {'k': v}: return v
        case str() | int(): return 'prim'
        case _: return None
print([f(o) for o in (P(3),P(9),[1,2],{'k':4},'s',None)])
""")
t("lang_yieldfrom", "top", r"""
def g():
    r = yield from h()
    print('r', r)
def h():
    yield 1
    return 5
print(list(g()))
""")
t("lang_gensend", "top", r"""
def g():
    x = yield 1
    print('got', x)
    try:
        yield 2
    except ValueError as e:
        print('thrown', e)
        yield 3
    finally:
        print('fin')
a=g()
print(next(a), a.send(5), a.throw(ValueError('z')))
a.close()
""")
t("lang_closure", "top", r"""
def mk():
    n=0
    def inc():
        nonlocal n
        n+=1
        return n
    return inc
i=mk()
print(i(),i())
""")
t("lang_prop", "top", r"""
class A:
    def __init__(s): s._x=1
    @property
    def x(s): return s._x
    @x.setter
    def x(s,v): s._x=v
    @classmethod
    def c(cls): return cls.__name__
    @staticmethod
    def st(a): return a
a=A()
a.x=5
a.x+=1
print(a.x,A.c(),A.st(3))
""")
t("lang_inherit", "top", r"""
class A:
    def m(self): return 1
class B(A):
    def m(self): return A.m(self)+1
print(B().m(), isinstance(B(),A), B.__mro__[1].__name__)
""")
t("lang_dataclass", "top", r"""
from dataclasses import dataclass, field
@dataclass
class P:
    x: int
    y: list = field(default_factory=list)
    def n(self): return self.x*2
p=P(3)
p.y.append(1)
print(p, p.n(), p==P(3,[1]))
""")
t("lang_slots", "top", r"""
class S:
    __slots__=('a',)
s=S()
s.a=2
print(s.a)
""")
t("lang_fstr", "top", r"""
x=3.14159
w=10
print(f'{x:{w}.{2}f}|{x!r}|{x=}|{"a" "b"}')
""")
t("lang_ctx", "top", r"""
from contextlib import contextmanager, suppress
@contextmanager
def c(n):
    print('in',n)
    try:
        yield n
    finally:
        print('out',n)
with c(1) as a, c(2) as b:
    print(a,b)
with suppress(KeyError):
    {}['x']
""")
t("lang_lru", "top", r"""
import functools
@functools.lru_cache(None)
def f(n): return n if n<2 else f(n-1)+f(n-2)
print(f(20), f.cache_info().hits)
print(functools.reduce(lambda a,b:a*b,[1,2,3]), functools.partial(f,3)())
""")
t("lang_itertools", "top", r"""
import itertools
print(list(itertools.chain([1],(2,))), list(zip('ab',itertools.count())), [list(g) for k,g in itertools.groupby([1,1,2])])
""")
t("lang_descr", "top", r"""
class D:
    def __get__(s,o,t): return 42
    def __set__(s,o,v): print('set',v)
class A:
    d=D()
a=A()
a.d=3
print(a.d)
""")
t("lang_getattr", "top", r"""
class A:
    def __getattr__(s,n):
        if n.startswith('__'): raise AttributeError(n)
        return n*2
    def __setattr__(s,n,v):
        print('set',n)
        object.__setattr__(s,n,v)
a=A()
a.z=1
print(a.z,a.q)
del a.z
print(a.z)
""")
t("lang_ops", "top", r"""
class V:
    def __init__(s,x): s.x=x
    def __add__(s,o): return V(s.x+o.x)
    def __radd__(s,o): return V(s.x+o)
    def __iadd__(s,o):
        s.x+=o.x
        return s
    def __lt__(s,o): return s.x<o.x
    def __neg__(s): return V(-s.x)
    def __call__(s,y): return s.x*y
    def __contains__(s,i): return i==s.x
    def __len__(s): return s.x
    def __iter__(s): return iter(range(s.x))
a=V(1)+V(2)
a+=V(3)
print(a.x,(-a).x,a(2),6 in a,len(a),list(a),sum([V(1),V(2)]).x,V(1)<a,sorted([V(3),V(1)])[0].x)
""")
t("lang_delattr", "top", r"""
l=[1,2,3]
del l[0], l[-1]
print(l)
d={'a':1}
del d['a']
print(d)
""")
t("lang_tryelse", "top", r"""
def f(x):
    try:
        r=1/x
    except ZeroDivisionError as e:
        return 'zde'
    else:
        return r
    finally:
        print('f')
print(f(0),f(2))
""")
t("lang_raisefrom", "top", r"""
try:
    try:
        1/0
    except ZeroDivisionError as e:
        raise ValueError('x') from e
except ValueError as v:
    print(repr(v.__cause__))
""")
t("lang_loopelse", "top", r"""
for i in range(3):
    if i==5: break
else:
    print('else')
while i:
    i-=1
    if i==0: continue
else:
    print('welse')
""")
t("lang_kwonly", "top", r"""
def f(a,/,b,*args,c=1,**kw): return (a,b,args,c,kw)
print(f(1,2,3,c=4,d=5), f(1,b=2), f(*[1,2],**{'c':9}))
""")
t("lang_annot", "top", r"""
def f(x:int=3, *, y:'str'='a') -> list: return [x,y]
print(f(), f.__annotations__)
z: int = 4
print(z)
""")
t("lang_chaincmp", "top", r"""
def g(x):
    print('g',x)
    return x
print(g(1)<g(2)<g(0)<g(5), g(1)==g(1)!=g(2))
""")
t("lang_sort", "top", r"""
class K:
    def __init__(s,v): s.v=v
    def __lt__(s,o): return s.v<o.v
    def __repr__(s): return 'K%d'%s.v
print(sorted([K(3),K(1)]), min(K(2),K(1)))
""")
t("lang_abc", "top", r"""
from abc import ABC, abstractmethod
class A(ABC):
    @abstractmethod
    def m(self): pass
class B(A):
    def m(self): return 1
print(B().m())
try:
    A()
except TypeError as e:
    print('TE')
""")
t("lang_pickle", "top", r"""
import pickle
class A:
    def __init__(s): s.x=1
print(pickle.loads(pickle.dumps(A())).x)
""")
t("lang_gendeep", "top", r"""
def tree(n):
    if n:
        yield from tree(n-1)
        yield n
print(list(tree(4)))
""")
t("lang_strmul", "top", r"""
print('a' 'b'*2, 3*'x', [0]*3, (1,)+(2,), b'x'[0], 'abc'[-1], [1,2,3][-2:], 'abc'[::-1])
""")
t("lang_nestedf", "top", r"""
def a():
    def b():
        def c(): return 'c'
        return c
    return b
print(a()()())
""")
t("lang_lambda_default", "top", r"""
fs=[lambda i=i: i for i in range(3)]
print([f() for f in fs])
print((lambda *a,**k:(a,k))(1,x=2))
""")
t("lang_dictcomp", "top", r"""
print({k:v for k,v in zip('ab',[1,2]) if v>1}, {x for x in 'aab'}=={'a','b'}, dict(a=1,**{'b':2}))
""")
t("lang_global_in_cls", "top", r"""
n=3
class A:
    m=n+1
    def f(s): return s.m
print(A().f(), A.m)
""")
t("lang_clsdecor", "top", r"""
def d(c):
    c.z=1
    return c
@d
class A:
    pass
print(A.z)
""")
t("lang_starcall", "top", r"""
def f(*a): return a
print(f(*range(3),*[4]), [*range(2),*'ab'], {**{}, 'a':1})
""")
t("lang_exc_str", "top", r"""
class E(Exception):
    def __init__(s,m): s.m=m
    def __str__(s): return 'E:'+s.m
try:
    raise E('x')
except E as e:
    print(e, str(e))
""")
t("lang_shelve", "top", r"""
import sqlite3
c=sqlite3.connect(':memory:')
c.execute('create table t(a)')
c.execute('insert into t values(1)')
print(c.execute('select * from t').fetchall())
""")
t("lang_iterproto", "top", r"""
class I:
    def __init__(s): s.n=0
    def __iter__(s): return s
    def __next__(s):
        s.n+=1
        if s.n>3: raise StopIteration
        return s.n
print(list(I()), [x for x in I()])
for x in I(): print(x)
""")
t("lang_atexit", "top", r"""
import atexit
def byeQQ(name):
    with open(name, 'w') as fil:
        fil.write('bye')
atexit.register(byeQQ, 'byeQQ.txt')
print('atexit')
""")
t("lang_warn", "top", r"""
import warnings
warnings.simplefilter('ignore')
warnings.warn('x')
print('w')
""")
t("lang_format_spec", "top", r"""
class F:
    def __format__(s,spec): return 'F<'+spec+'>'
print(f'{F():abc}', '{:x}'.format(F()), format(F(),'q'))
""")
t("lang_weakref", "top", r"""
import weakref
class A: pass
a=A()
r=weakref.ref(a)
print(r() is a)
""")
t("lang_id", "top", r"""
a=[]
b=a
print(a is b, id(a)==id(b))
""")

t("lang_negative", "top", r"""
class NegQQ(object):
    def __getitem__(self, i):
        return i
    def __setitem__(self, i, v):
        print('set', i, v)
objQQ = NegQQ()
print('neg', objQQ[-P1])
objQQ[-P2] = 3
dctQQ = {-1: 'x'}
print('neg', dctQQ[-1])
dctQQ[-3] = P3
print('neg', dctQQ, 'abc'[-1], b'ab'[-2])
""")
t("lang_iterargs", "call", r"""
def fQQ(*a):
    return a
def gQQ(a, b, c=P3):
    return (a, b, c)
print('iterargs', fQQ(*(i for i in range(P1))), gQQ(*map(str, [1, P2])), gQQ(*iter([1, 2]), c=4))
print('iterargs', gQQ(*(i for i in [1]), *[2]), gQQ(**dict(a=1, b=2)))
""")
t("lang_eqcalls", "", r"""
class EqQQ(object):
    def __eq__(self, other):
        print('eq', type(other).__name__)
        return False
    def __hash__(self):
        return P1
print('eqcalls', len({EqQQ()}), len([EqQQ()]), EqQQ() == 3, EqQQ() in [P2])
""")
t("lang_lencalls", "", r"""
class LenQQ(object):
    def __len__(self):
        print('len')
        return P1
    def __getitem__(self, i):
        return i
    def __bool__(self):
        print('bool')
        return True
print('lencalls', LenQQ()[-1], 1 if LenQQ() else 2)
yQQ = LenQQ()
if yQQ:
    print('y')
yQQ and print('and')
while yQQ:
    break
assert yQQ
zQQ = not yQQ
""")


t("lang_withsuppress", "", r"""
class SupQQ(object):
    def __init__(self, value):
        self.value = value
    def __enter__(self):
        return self.value
    def __exit__(self, *exc):
        print('exit', exc[0].__name__ if exc[0] else None)
        return self.value
with SupQQ(P1) as gotQQ:
    raise KeyError(gotQQ)
with SupQQ('s'), SupQQ(None):
    raise ValueError(P2)
try:
    with SupQQ(0):
        raise IndexError(P3)
except IndexError as excQQ:
    print('through', excQQ)
""")
t("lang_genvalues", "", r"""
class NoEqQQ(object):
    def __eq__(self, other):
        raise TypeError('not comparable')
    def __repr__(self):
        return 'NoEq'
def itQQ(n):
    for i in range(n):
        yield NoEqQQ()
for oQQ in itQQ(P1):
    print('genvalues', type(oQQ).__name__)
lQQ = [oQQ for oQQ in itQQ(P2)]
for oQQ in lQQ:
    print('item')
xQQ, *yQQ = itQQ(P3 + 1)
print('genvalues', len(lQQ), len(yQQ))
""")
t("lang_unpacking", "", r"""
a, b = {0, 1}
print(a, b)
c, d = {0: 'x', 1: 'y'}
print(c, d)
for i in {0: 'x', 1: 'y'}: print(i)
for i in {0, 1}: print(i)
x, *y = (i for i in range(4))
print(x, y)
x, *y, z = {1, 2, 3, 4}
print(x, y, z)
(a, b), *c, (d, e) = [(1, 2), 3, 4, (5, 6)]
print(a, b, c, d, e)
*a, b = 'abc'
print(a, b)
l = [0, 0, 0]
l[0], *l[1:] = [5, 6, 7]
print(l)
class O: pass
o = O()
o.x, *o.y = iter('abc')
print(o.x, o.y)
(p, *q), *r = [[1, 2, 3], 4]
print(p, q, r)
[m, *n] = map(str, range(3))
print(m, n)
a, (b, *c) = 1, (2, 3)
for k, *v in [(1, 2, 3), (4,)]: print(k, v)
print([(k, v) for k, *v in [(1, 2, 3), (4,)]])
a = b = c = iter([1])
print(list(a))
""")
t("lang_classes", "top", r'''
from enum import Enum, IntEnum
from typing import NamedTuple, Generic, TypeVar
class E(Enum):
    A = 1
    B = 2
    def m(self): return self.name
print(E.A.m(), list(E), E['B'].value)
class M(type):
    def __new__(m, n, b, d, **k):
        print('new', n, k)
        return type.__new__(m, n, b, d)
    def __init__(c, n, b, d, **k):
        type.__init__(c, n, b, d)
class A(metaclass=M, mode='x', bases=3):
    x = 1
print(A.x, type(A).__name__)
def mk():
    print('mk')
    return object
class B(mk()):
    def m(self): return 1
class C(B):
    def m(self): return super().m() + 1
class D(C):
    def __init__(self, *a):
        super().__init__()
        self.a = a
    def m(self): return super(D, self).m() * 5
    class Inner:
        y = 3
        def z(self): return self.y
print(C().m(), D(1).m(), D.Inner().z())
def f(n):
    class L(B):
        k = n
        def m(self): return super().m() + n
    return L
print(f(3)().m(), f(4).k)
def g():
    for i in range(2):
        class G:
            v = i
        yield G
print([c.v for c in g()])
class S:
    __slots__ = ('a', 'b')
    def __init__(self): self.a = 1
print(S().a)
class P(NamedTuple):
    x: int
    y: int = 3
print(P(1), P(1).y)
T = TypeVar('T')
class Q(Generic[T]):
    def m(self): return 'q'
print(Q[int]().m())
class Sub:
    subs = []
    def __init_subclass__(cls, tag=None, **k):
        super().__init_subclass__(**k)
        Sub.subs.append((cls.__name__, tag))
class S1(Sub, tag='t'): pass
class S2(*[Sub], **{'tag': 'u'}): pass
print(Sub.subs)
try:
    class Bad(nope): pass
except NameError as e: print(e)
try:
    class Bad2(B):
        x = 1 / 0
except ZeroDivisionError as e: print(e)
class Ok(B): pass
print(Ok().m())
def rec(n):
    class R(rec(n - 1) if n else object):
        lv = n
    return R
print([c.lv for c in rec(3).__mro__[:-1]])
def deco(c):
    c.z = 9
    return c
@deco
class Z(Exception):
    """doc"""
    def __init__(self, m):
        super().__init__(m)
        self.m = m
try:
    raise Z('z')
except Z as e: print(e, e.m, Z.z, Z.__doc__, e.args)
class Prop:
    @property
    def p(self): return 1
    @p.setter
    def p(self, v): print('set', v)
class Prop2(Prop):
    @property
    def p(self): return super().p + 1
x = Prop2()
print(x.p)
from abc import ABC, abstractmethod
class Ab(ABC):
    @abstractmethod
    def m(self): ...
class Ab2(Ab):
    def m(self): return 'ab2'
print(Ab2().m())
from dataclasses import dataclass
@dataclass(order=True)
class DC(B):
    x: int = 3
print(DC(), DC(1) < DC(2))
def meth():
    class K:
        def a(self): return self.b()
        def b(self): return 'kb'
    return K()
print(meth().a())
class Cmp:
    xs = [1, 2]
    ys = len(xs)
print(Cmp.ys)
def tf[T](x: T) -> T: return x
class TC[T]:
    v: T
    def m(self, x: T) -> T: return x
print(tf(3), TC().m(4), TC.__type_params__)
class TD[T](B):
    def m(self): return super().m() + 2
print(TD().m())
class Deep(B):
    def m(self, k=1, *a, **kw):
        def inner(z):
            return super(Deep, self).m()
        return [inner(1), (lambda: super(Deep, self).m())()]
    @classmethod
    def make(cls): return cls()
    @staticmethod
    def st(x): return x
    def __repr__(self): return super().__repr__()[:5]
    def __getattr__(self, n): return n
    def __setattr__(self, n, v): super().__setattr__(n, v * 2)
print(Deep().m(), type(Deep.make()).__name__, Deep.st(4), repr(Deep()), Deep().zz)
dd = Deep(); dd.q = 3
print(dd.q)
class NewC:
    def __new__(cls, *a):
        o = super().__new__(cls)
        o.tag = a
        return o
print(NewC(1, 2).tag)
class Sub2(dict):
    def __missing__(self, k): return k * 2
    def __setitem__(self, k, v): super().__setitem__(k, v + 1)
s = Sub2(); s[1] = 2
print(s[1], s['z'])
''')
t("lang_frames", "top", r'''
x = 1
exec('z = 5')
print(z, eval('x + z'), globals()['x'], 'x' in dir(), 'x' in vars())
def f(a, b=2):
    c = 3
    g = globals()
    g['added'] = a
    exec('q = c + 1')
    print(sorted(locals()), sorted(vars()), sorted(dir()), eval('a + b + c'), g is globals())
    return [eval('a') for i in range(2)] if False else None
f(1)
print(added, globals() is locals(), eval('x', {'x': 9}), eval('y', {}, {'y': 3}))
class A:
    v = 1
    w = eval('v + 1')
    locals()['k'] = 4
    def m(self): return sorted(locals())
print(A.w, A.k, A().m(), vars(A())) 
fs = [(lambda: sorted(locals()))()]
print(fs)
print(list(map(eval, ['1+1'])))
''')
t("lang_nested", "", r"""
class OutQQ(object):
    class InQQ(object):
        v = P1
        def m(self):
            return self.v + P2
    def n(self):
        class LocQQ(self.InQQ):
            def m(self):
                return super().m() * P3
        return LocQQ().m()
print('nested', OutQQ.InQQ().m(), OutQQ().n())
from enum import Enum
class ColorQQ(Enum):
    RED = P1 + 1
    BLUE = 0
print('nested', ColorQQ.RED.value, ColorQQ(0).name, len(ColorQQ))
""")
PURE = sorted(n for n, (tags, _) in T.items() if not tags & {"file", "mod"})
FILES = sorted(n for n, (tags, _) in T.items() if "file" in tags)
CALLS = sorted(n for n, (tags, _) in T.items() if "call" in tags)
MODS = sorted(n for n, (tags, _) in T.items() if "mod" in tags)


#: expressions (H is a hole), statements (E is the expression) and fillers of the hole
EXPR_PRELUDE = '''
import sys
def boom(*a, **k):
    raise KeyError('boom')
def ok(v=3, *a, **k):
    return v
class Obj(object):
    def __init__(self):
        self.a = 4
        self.items = [1, 2, 3]
    def m(self, v=1, *a, **k):
        return v
    def __getitem__(self, i):
        return i
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False
    def __repr__(self):
        return 'Obj'
class Odd(object):
    """Compares to nothing."""
    def __eq__(self, other):
        raise RuntimeError('eq')
    def __ne__(self, other):
        raise RuntimeError('ne')
    def __bool__(self):
        raise RuntimeError('bool')
    def __len__(self):
        raise RuntimeError('len')
    __hash__ = object.__hash__
def ident(*a, **k):
    return (a, sorted(k.items()))
o = Obj()
odd = Odd()
d = {'a': 1, 'b': [1, 2], 3: 'x'}
l = [5, 6, 7]
'''
EXPRESSIONS = [
    '[H]',
    '(H,)',
    '{H}',
    '{1: H}',
    '{H: 1}',
    '[x for x in [1, H]]',
    '[H for x in l]',
    '[x for x in l if H]',
    '{x: H for x in l}',
    '{H: x for x in l}',
    '{x for x in l if x != H}',
    'list(x for x in [H])',
    'list(H for x in l)',
    'sum(1 for x in l if H)',
    '(1 if H else 2)',
    '(H if l else 2)',
    '(2 if not l else H)',
    'ident(H)',
    'ident(*[H])',
    'ident(**{"k": H})',
    'ident(1, k=H)',
    'o.m(H)',
    'o[H]',
    'l[:H]',
    'd.get(H)',
    '[d["a"], d["b"]]',
    '(o.a, o.items[-1])',
    '-H',
    'H + 1',
    '1 + H',
    'H < 5',
    '1 < H < 9',
    '1 < 2 < H',
    'H and 2',
    '0 or H',
    'not H',
    '(lambda: H)()',
    '(lambda x=H: x)()',
    '(lambda *x: x)(H)',
    "f'{H}'",
    "f'{H!r:>10}'",
    "'%s' % H",
    "'{}'.format(H)",
    'H is None',
    'H in l',
    'l[0:H:1]',
    '(y := H)',
    '[*[H], 1]',
    '{**{"z": H}}',
    '{*[H]}',
    'sorted(l, key=lambda v: -v + H)',
    'list(map(lambda v: v + H, l))',
    '[[z for z in range(H)] for q in l]',
    'ident(*l, *[H], k=1)',
    'o.m(o.m(H))',
    'max(l) + H',
    'str(H).upper()',
    '[i for i, j in [(H, 1)]]',
    'isinstance(H, int)',
    'type(H).__name__',
    '(1 if odd else 2)',
    '(odd if l else 2) is odd',
    '[odd] and 1',
    '[odd][0] is odd',
    'ident(odd)[0][0] is odd',
    '(odd or 1)',
    '[odd if True else odd] and 1',
    '{"k": odd}["k"] is odd',
    '(lambda v: v)(odd) is odd',
    'l[-1] + H',
    'd["b"][-1]',
    '[d["b"][0] for w in l]',
    '[o.m(d["a"], k=l[0]) for w in l if d["a"]]',
    '{d["a"]: l[0], "n": o.a}',
    '(d["a"], [l[1], {"q": o.items[0]}])',
    '[H, l[0]][0]',
    '([l[0], H])[1]',
    '[l[0]] + [d["a"]]',
    '{l[0], l[1]}',
    'ident(l[0], d["a"], *l[1:], **{"k": d["a"]})',
    'l[l.index(5)]',
    'l[d["a"]]',
    'o.items[o.items[0]]',
    '(l[0] if d["a"] else l[1])',
    '[x if x else l[0] for x in l]',
    '[(x, y) for x in l for y in o.items if y < H]',
    'print(H)',
    'open("data.txt").read()[:H]',
    '(l[0], l[1])[0]',
    'ident(l[0], (l[1], l[2]))',
    'b"x" * H',
    '...',
    'None',
    '1j + H',
    '"a" "b"',
    'l[0] if l[0] else H',
    'ident(x=l[0], y=o.a)',
]
STATEMENTS = [
    'v = E\nprint(v)',
    'print(E)',
    'for x9 in [E]:\n    print(x9)',
    'if E:\n    print("t")\nelse:\n    print("f")',
    'a1 = b1 = E\nprint(a1, b1)',
    '(a2, b2) = (E, l[0])\nprint(a2, b2)',
    'a3 = l[0]\na3 = [a3]\na3 += [E]\nprint(a3)',
    'dd = {}\ndd["k"] = E\nprint(dd)',
    'oo = Obj()\noo.z = E\nprint(oo.z)',
    'with Obj() as w1:\n    print(E)',
    'try:\n    print(E)\nfinally:\n    print("fin")',
    'def inner(n=1):\n    return E\nprint(inner())',
    'def gen():\n    yield E\n    yield 2\nprint(list(gen()))',
    'assert [E], "m"\nprint("assert")',
    'while True:\n    print(E)\n    break',
    'print([E for t1 in range(2)])',
    'x1 = 1 if [E] else 2\nprint(x1)',
    'del [E][0:1]\nprint("del")',
    'def dflt(q=[E]):\n    return q\nprint(dflt())',
    'raise ValueError(E)',
    '*r1, r2 = [1, E]\nprint(r1, r2)',
    'E\nprint("expr")',
    'print(E, E)',
    'return E',
    'yy = yield E\nprint(yy)',
    'll = [1, 2]\nll[E if isinstance(E, int) and E < 2 else 0] = 9\nprint(ll)',
    'aa: int = E\nprint(aa)',
    '@(lambda f, _=[E]: f)\ndef deco():\n    return 1\nprint(deco())',
    'def kk(*, w=E, **k):\n    return w\nprint(kk())',
    'try:\n    raise IndexError(E)\nexcept IndexError as ex:\n    print(ex.args)',
    'match E:\n    case 3:\n        print("three")\n    case _:\n        print("other")',
    'lambda: E\nprint("lam")',
]
FILLERS = ['boom()', 'ok()', '3', 'l[0]', 'o.m(2)']


def expression(rng):
    """A snippet whose statement holds an expression that may fail while it is evaluated."""
    while True:
        item = ["expr", "top", rng.randrange(len(EXPRESSIONS)), rng.randrange(len(STATEMENTS)),
                rng.randrange(len(FILLERS))]
        try:
            compile(render_expression(0, item), "x", "exec")
            return item
        except SyntaxError:
            pass


def render_expression(number, item):
    _, _, expr, statement, filler = item
    hole = EXPRESSIONS[expr].replace("H", FILLERS[filler])
    body = indent(re.sub(r"\bE\b", lambda _: hole, STATEMENTS[statement]), "    ")
    call = ("list(case%d())" if "yield" in STATEMENTS[statement].split("\n")[0] else "case%d()") % number
    return ("def case%d():\n%s\n    return l[0]\n"
            "def outer%d(n):\n    try:\n        got = [%s, l[1]]\n        print('ok', got[1:])\n"
            "    except Exception as exc:\n        print(type(exc).__name__, exc.args, repr(exc.__context__))\n"
            "    return l[0]\nprint(outer%d(1) + l[1])\n") % (number, body, number, call, number)


def snippet(rng, name):
    if name == "expr":
        return expression(rng)
    tags = T[name][0]
    place = "top" if "top" in tags else rng.choice(["top", "top", "func", "method", "loop"])
    return [name, place, rng.randrange(1, 6), rng.randrange(1, 6), rng.randrange(1, 6)]


def generate(rng, size=(1, 6), names=None, ends=("normal",)):
    names = names or (PURE + FILES + MODS)
    count = rng.randrange(size[0], size[1] + 1)
    return {"snippets": [snippet(rng, rng.choice(names)) for _ in range(count)], "end": rng.choice(list(ends))}


def indent(text, by):
    return "".join(by + line if line.strip() else line for line in text.splitlines(True))


def render_snippet(number, item):
    if item[0] == "expr":
        return render_expression(number, item)
    name, place, p1, p2, p3 = item
    text = T[name][1]
    text = text.replace("QQ", str(number))
    text = re.sub(r"P1\b", str(p1), re.sub(r"P2\b", str(p2), re.sub(r"P3\b", str(p3), text)))
    if place == "func":
        return "def run%d():\n%s    return %d\nprint(run%d())\n" % (number, indent(text, "    "), p1, number)
    if place == "method":
        return "class Run%d(object):\n    def go(self, n):\n%s        return n\nprint(Run%d().go(%d))\n" % (
            number, indent(text, "        "), number, p1)
    if place == "loop":
        return "for loop%d in range(2):\n%s" % (number, indent(text, "    "))
    return text


def render(program):
    """The script's text."""
    text = "".join(render_snippet(number, item) for number, item in enumerate(program["snippets"]))
    if any(item[0] == "expr" for item in program["snippets"]):
        text = EXPR_PRELUDE + text
    return text + ENDS[program["end"]][0]


def simplify(program):
    from . import common as c
    for snippets in c.drop_each(program["snippets"]):
        yield dict(program, snippets=snippets)
    for number, item in enumerate(program["snippets"]):
        if item[1] != "top":
            snippets = list(program["snippets"])
            snippets[number] = [item[0], "top"] + item[2:]
            yield dict(program, snippets=snippets)
        if item[0] != "expr" and item[2:] != [1, 1, 1]:
            snippets = list(program["snippets"])
            snippets[number] = item[:2] + [1, 1, 1]
            yield dict(program, snippets=snippets)
    if program["end"] != "normal":
        yield dict(program, end="normal")


def install(world, program, name="s.py"):
    """Write the script and everything it uses."""
    world.write(name, render(program).encode("utf-8"))
    for path, data in INPUTS.items():
        world.write(path, data)
    for path, text in MODULES.items():
        world.write(path, text.encode())


def plain_run(script, *argv):
    """The script as Python runs it."""
    import os
    import sys
    import traceback
    sys.argv = [script] + list(argv)
    path = os.path.realpath(script)
    sys.path.insert(0, os.path.dirname(path))
    import __main__
    space = __main__.__dict__
    builtins = space["__builtins__"]
    space.clear()
    space.update({"__name__": "__main__", "__file__": path, "__doc__": None, "__builtins__": builtins})
    with open(path, "rb") as fil:
        text = fil.read()
    try:
        exec(compile(text, path, "exec"), space)
    except SystemExit:
        raise
    except KeyboardInterrupt:
        traceback.print_exc()
        raise SystemExit(130)
    except BaseException:
        traceback.print_exc()
        raise SystemExit(1)
