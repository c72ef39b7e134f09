"""The scheduler: many simulated processes, one running at a time.

Every process talks to the scheduler over a socket.  It runs until its next
request (a disk operation from the C seam, a queue / lock / dictionary / join
operation from the simulated multiprocessing module, a sleep, a network
message) and then waits.  The scheduler picks, from one seeded generator, which
enabled request is granted next, so the interleaving is a function of the seed.
"""
import array
import os
import pickle
import signal
import socket
import struct
import sys
import traceback
from collections import deque

from . import native
from . import world as world_mod
from .world import HarnessError, Result, child_main, collect


class Blocked(Exception):
    """Raised by a request handler that cannot be granted yet."""


class Deadlock(Exception):
    pass


# ---------------------------------------------------------------- client side
def _send_frame(fd, payload):
    data = struct.pack("<I", len(payload)) + payload
    while data:
        data = data[os.write(fd, data):]


def _read_exact(fd, count):
    buf = b""
    while len(buf) < count:
        part = os.read(fd, count - len(buf))
        if not part:
            os._exit(native.CRASH_STATUS)
        buf += part
    return buf


def call(op, *args):
    """Request an operation from the scheduler and wait for its result."""
    ctx = world_mod.CURRENT
    fd = ctx.kernel_fd
    _send_frame(fd, b"P" + pickle.dumps((op, args)))
    size = struct.unpack("<I", _read_exact(fd, 4))[0]
    status, value = pickle.loads(_read_exact(fd, size))
    if status == "raise":
        raise value
    return value


def connected():
    ctx = world_mod.CURRENT
    return ctx is not None and ctx.kernel_fd is not None


def client_exit(ctx, code):
    _send_frame(ctx.kernel_fd, b"P" + pickle.dumps(("exit", (code,))))


def client_fork(name, daemon):
    """Ask for a socket for a child process; returns (pid number, fd)."""
    ctx = world_mod.CURRENT
    fd = ctx.kernel_fd
    _send_frame(fd, b"P" + pickle.dumps(("fork", (name, daemon))))
    sock = socket.socket(fileno=os.dup(fd))
    try:
        data, anc, _, _ = sock.recvmsg(4, socket.CMSG_SPACE(4))
        while len(data) < 4:
            data += sock.recv(4 - len(data))
        fds = array.array("i")
        for level, typ, payload in anc:
            if level == socket.SOL_SOCKET and typ == socket.SCM_RIGHTS:
                fds.frombytes(payload[:4])
        size = struct.unpack("<I", data)[0]
        _, value = pickle.loads(_read_exact(fd, size))
        return value, fds[0]
    finally:
        sock.close()


def adopt(fd, name, number):
    """In a freshly forked simulated sub-process: become process `number`."""
    ctx = world_mod.CURRENT
    os.close(ctx.kernel_fd)
    new = world_mod.ProcContext(ctx.world, name, fd)
    world_mod.CURRENT = new
    logfd = os.open(os.path.join(ctx.world.io, "sub-%03d.log" % number),
                    os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o644)
    native.lib().sim_regate(fd, logfd, number * 7919 + 13, number)
    call("step", "start")
    return new


# -------------------------------------------------------------- server side
class Proc(object):

    def __init__(self, number, name, sock, pid=None, parent=None, daemon=False):
        self.number = number
        self.name = name
        self.sock = sock
        self.pid = pid
        self.parent = parent
        self.daemon = daemon
        self.alive = True
        self.request = None      # pending, not yet granted
        self.wake = None         # simulated time the request becomes enabled
        self.faults = []         # of the whole group, kept by its leader
        self.counts = {"W": 0, "R": 0}
        self.kinds = []          # (kind, path) of each mutating operation of the group
        self.machine_crash = False
        self.paths = None
        self.exit_code = None
        self.result = None
        self.group = number
        self.ops = 0


class Kernel(object):

    def __init__(self, world, rng, stickiness=0.6, max_steps=200000, net=None):
        self.world = world
        self.rng = rng
        self.stickiness = stickiness
        self.procs = []
        self.steps = 0
        self.max_steps = max_steps
        self.last = None
        self.objects = {}
        self.next_object = 1
        self.trace = []          # (proc number, what)
        self.outcome = None      # None, "deadlock", "steps"
        self.net = net
        self.switches = 0
        self.on_exit = {}        # proc number -> callback(kernel, proc)
        self.stats = {}

    # ------------------------------------------------------------- spawning
    def spawn(self, name, fn, args=(), kwargs=None, faults=(), cwd="", seed=None, read_ops=False,
              world=None):
        world = world or self.world
        world.count += 1
        count = world.count
        paths = world.io_paths(name, count)
        for path in paths.values():
            if os.path.exists(path):
                os.remove(path)
        ours, theirs = socket.socketpair(socket.AF_UNIX, socket.SOCK_STREAM)
        number = len(self.procs) + 1
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            ours.close()
            for proc in self.procs:
                if proc.sock is not None:
                    proc.sock.close()
            child_main(world, name, fn, args, kwargs, (), read_ops,
                       world.path(cwd) if cwd else world.root,
                       count if seed is None else seed, paths,
                       gatefd=theirs.detach(), proc=number)
        theirs.close()
        proc = Proc(number, name, ours, pid)
        proc.paths = paths
        proc.faults = list(faults)
        proc.world = world
        self.procs.append(proc)
        self._await(proc)
        return proc

    def _fork_request(self, parent, name, daemon):
        ours, theirs = socket.socketpair(socket.AF_UNIX, socket.SOCK_STREAM)
        number = len(self.procs) + 1
        child = Proc(number, name, ours, None, parent, daemon)
        child.group = parent.group
        child.world = parent.world
        self.procs.append(child)
        payload = pickle.dumps(("ok", number))
        parent.sock.sendmsg([struct.pack("<I", len(payload))],
                            [(socket.SOL_SOCKET, socket.SCM_RIGHTS,
                              array.array("i", [theirs.fileno()]))])
        parent.sock.sendall(payload)
        theirs.close()
        # parent and child both run on to their next request: the child only
        # executes process start-up before it, nothing shared
        self._await(child)
        self._await(parent)

    # ------------------------------------------------------------ messaging
    def _recv(self, sock, count):
        buf = b""
        while len(buf) < count:
            part = sock.recv(count - len(buf))
            if not part:
                return None
            buf += part
        return buf

    def _await(self, proc):
        """Wait until a running process posts its next request or dies."""
        signal.signal(signal.SIGALRM, world_mod._alarm)
        signal.setitimer(signal.ITIMER_REAL, 60)
        try:
            head = self._recv(proc.sock, 4)
            data = self._recv(proc.sock, struct.unpack("<I", head)[0]) if head else None
        except ConnectionResetError:
            data = None
        except world_mod._Alarm:
            proc.hung = True
            data = None
            self._kill(proc)
            self.outcome = "hang"
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if data is None:
            self._dead(proc, native.CRASH_STATUS)
            return
        kind = data[:1]
        if kind == b"G":
            text = data[1:].decode("utf-8", "replace").split("\t")
            proc.request = ("gate", (text[0][0], text[0][1:], text[1], text[2],
                                     int(text[3]), int(text[4])))
        elif kind == b"S":
            proc.request = ("sleep", (int(data[1:]),))
            proc.wake = self.world.clock.mono + int(data[1:])
        else:
            op, args = pickle.loads(data[1:])
            if op == "exit":
                proc.exit_code = args[0]
                proc.clean_exit = True
                self._dead(proc, args[0])
                return
            if op == "fork":
                self._fork_request(proc, *args)
                return
            if op == "sleep":
                proc.wake = self.world.clock.mono + args[0]
            proc.request = (op, args)

    def _reply(self, proc, status, value):
        payload = pickle.dumps((status, value))
        try:
            proc.sock.sendall(struct.pack("<I", len(payload)) + payload)
        except (BrokenPipeError, ConnectionResetError):
            pass

    def _reply_gate(self, proc, action, param):
        try:
            proc.sock.sendall(struct.pack("<Iii", 8, action, param))
        except (BrokenPipeError, ConnectionResetError):
            pass

    def _kill(self, proc):
        if proc.pid:
            try:
                os.kill(proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass

    def _dead(self, proc, code):
        if not proc.alive:
            return
        proc.alive = False
        proc.request = None
        proc.exit_code = code
        if proc.pid:
            status = world_mod.wait(proc.pid, 60)
            if proc.paths:
                proc.result = collect(proc.name, proc.paths, status)
                if getattr(proc, "hung", False):
                    proc.result.status = "hang"
        proc.sock.close()
        proc.sock = None
        self.note(proc, "exit %s" % code)
        # a machine crash takes the whole process group of the simulated run
        if not getattr(proc, "clean_exit", False) and (proc.number == proc.group or proc.machine_crash):
            for other in self.procs:
                if other.alive and other.group == proc.group:
                    self._drop(other)
                    if other.number in self.on_exit:
                        self.on_exit[other.number](self, other)
        for lock in self.objects.values():
            if lock[0] == "lock" and lock[1] == proc.number:
                pass              # a lock held by a dead process stays held
        callback = self.on_exit.get(proc.number)
        if callback:
            callback(self, proc)

    def _drop(self, proc):
        """Kill a process that is waiting for the scheduler."""
        proc.alive = False
        proc.request = None
        proc.exit_code = native.CRASH_STATUS
        if proc.pid:
            self._kill(proc)
            status = world_mod.wait(proc.pid, 60)
            if proc.paths:
                proc.result = collect(proc.name, proc.paths, status)
                proc.result.status = "crash"
        proc.sock.close()            # the client sees EOF and exits
        proc.sock = None

    def note(self, proc, what):
        self.trace.append((proc.number, what))

    # ------------------------------------------------------------ main loop
    def enabled(self):
        ready = []
        for proc in self.procs:
            if proc.alive and proc.request is not None:
                if proc.wake is not None and proc.wake > self.world.clock.mono:
                    continue
                if self.can_grant(proc):
                    ready.append(proc)
        return ready

    def run(self, until=None):
        """Grant requests until every process ended (or until() is true)."""
        while True:
            if until is not None and until(self):
                return self
            if self.outcome:
                break
            live = [p for p in self.procs if p.alive]
            if not live:
                return self
            ready = self.enabled()
            if not ready:
                wakes = [p.wake for p in live if p.wake is not None]
                wakes += self.net.wakes() if self.net else []
                wakes = [w for w in wakes if w > self.world.clock.mono]
                if wakes:
                    self.world.clock.mono = min(wakes)
                    continue
                self.outcome = "deadlock"
                break
            self.steps += 1
            if self.steps > self.max_steps:
                self.outcome = "steps"
                break
            if self.last in ready and (len(ready) == 1 or self.rng.random() < self.stickiness):
                proc = self.last
            else:
                proc = ready[self.rng.randrange(len(ready))] if len(ready) > 1 else ready[0]
            if proc is not self.last:
                self.switches += 1
            self.last = proc
            self.grant(proc)
        self.shutdown()
        return self

    def shutdown(self):
        for proc in self.procs:
            if proc.alive:
                pending = proc.request
                self._drop(proc)
                if proc.result is not None and self.outcome:
                    proc.result.status = self.outcome
                    proc.result.pending = pending
        return self

    def can_grant(self, proc):
        op, args = proc.request
        handler = getattr(self, "can_" + op, None)
        return True if handler is None else handler(proc, *args)

    def grant(self, proc):
        op, args = proc.request
        proc.wake = None
        if op == "gate":
            cls, kind, rel, rel2, size, idx = args
            leader = self.procs[proc.group - 1]
            nth = leader.counts[cls]
            leader.counts[cls] += 1
            fault = None
            for cand in leader.faults:
                if cand.get("cls", "W") == cls and (
                        cand["op"] == nth or cand["op"] <= nth < cand.get("until", 0)):
                    fault = cand
                    break
            if cls == "W":
                proc.ops += 1
                leader.kinds.append((kind, rel, size))
                self.note(proc, "%s %s" % (kind, mask(rel)))
            action, param = 0, 0
            if fault:
                action, param = native.ACTIONS[fault["act"]], fault.get("param", 0)
                self.note(proc, "FAULT %s" % fault["act"])
                # a crash takes the machine, unless it is said to hit only
                # this process (the out-of-memory killer, say)
                if fault["act"] in CRASHES and fault.get("scope") != "proc":
                    leader.machine_crash = proc.machine_crash = True
            proc.request = None
            self._reply_gate(proc, action, param)
            self._await(proc)
            return
        proc.request = None
        if op == "sleep":
            self._reply_gate(proc, 0, 0) if len(args) == 1 else self._reply(proc, "ok", None)
            self._await(proc)
            return
        try:
            value = getattr(self, "do_" + op)(proc, *args)
            status = "ok"
        except HarnessError:
            raise
        except Exception as exc:  # noqa: the caller's error, delivered to it
            status, value = "raise", exc
        if value is PARK:
            return
        self.note(proc, op)
        self._reply(proc, status, value)
        self._await(proc)

    # -------------------------------------------------------- kernel objects
    def do_new(self, proc, kind, initial=None):
        number = self.next_object
        self.next_object += 1
        if kind == "queue":
            obj = ["queue", deque(), 0]          # items, unfinished
        elif kind == "dict":
            obj = ["dict", dict(initial or {})]
        elif kind == "list":
            obj = ["list", list(initial or [])]
        elif kind in ("lock", "rlock"):
            obj = ["lock", None, 0, kind]
        elif kind == "event":
            obj = ["event", False]
        else:
            raise HarnessError("unknown object kind %s" % kind)
        self.objects[number] = obj
        return number

    def do_q_put(self, proc, number, item):
        obj = self.objects[number]
        obj[1].append(item)
        obj[2] += 1

    def can_q_get(self, proc, number, block=True):
        return bool(self.objects[number][1]) or not block

    def do_q_get(self, proc, number, block=True):
        import queue
        obj = self.objects[number]
        if not obj[1]:
            raise queue.Empty()
        return obj[1].popleft()

    def do_q_size(self, proc, number):
        return len(self.objects[number][1])

    def do_q_done(self, proc, number):
        obj = self.objects[number]
        if obj[2] <= 0:
            raise ValueError("task_done() called too many times")
        obj[2] -= 1

    def can_q_join(self, proc, number):
        return self.objects[number][2] == 0

    def do_q_join(self, proc, number):
        return None

    def can_l_acquire(self, proc, number, block=True):
        obj = self.objects[number]
        return (not block) or obj[1] is None or (obj[3] == "rlock" and obj[1] == proc.number)

    def do_l_acquire(self, proc, number, block=True):
        obj = self.objects[number]
        if obj[1] is None or (obj[3] == "rlock" and obj[1] == proc.number):
            obj[1] = proc.number
            obj[2] += 1
            return True
        return False

    def do_l_release(self, proc, number):
        obj = self.objects[number]
        if obj[1] is None:
            raise ValueError("release of an unlocked lock")
        obj[2] -= 1
        if obj[2] == 0:
            obj[1] = None

    def do_e_set(self, proc, number, value):
        self.objects[number][1] = value

    def do_e_get(self, proc, number):
        return self.objects[number][1]

    def can_e_wait(self, proc, number):
        return self.objects[number][1]

    def do_e_wait(self, proc, number):
        return True

    def do_obj(self, proc, number, method, args, kwargs):
        target = self.objects[number][1]
        value = getattr(target, method)(*args, **kwargs)
        if method in ("items", "keys", "values", "__iter__"):
            value = list(value)
        return value

    def can_join(self, proc, number):
        return not self.procs[number - 1].alive

    def do_join(self, proc, number):
        return self.procs[number - 1].exit_code

    def do_alive(self, proc, number):
        return self.procs[number - 1].alive

    def do_terminate(self, proc, number):
        other = self.procs[number - 1]
        if other.alive and other is not proc:
            self._drop(other)

    def do_step(self, proc, what):
        self.note(proc, what)

    # --------------------------------------------------------------- network
    def do_net_request(self, proc, dst, message):
        if self.net is None:
            raise ConnectionError("network unreachable")
        return self.net.request(self, proc, dst, message)

    def can_net_accept(self, proc, host):
        return self.net.can_accept(self, proc, host)

    def do_net_accept(self, proc, host):
        return self.net.accept(self, proc, host)

    def do_net_respond(self, proc, host, token, message):
        return self.net.respond(self, proc, host, token, message)

    def can_net_wait(self, proc, token):
        return self.net.can_wait(self, proc, token)

    def do_net_wait(self, proc, token):
        return self.net.wait(self, proc, token)


PARK = object()
CRASHES = ("crash_before", "crash_after", "torn")


def mask(rel):
    """Operation paths without the parts that are random by design."""
    out = []
    for part in rel.split("/"):
        if part.startswith("tmp") or part.startswith("_git2_") or ".tmp" in part:
            part = "<tmp>"
        out.append(part)
    return "/".join(out)
