"""The network between the machines of a world: HTTP requests as messages.

Clients use the real `requests` library down to its transport adapter, servers
run the real WSGI application; between them every request and reply is a
message that the scheduler delivers, delays, duplicates, loses or refuses.
"""
import io
from urllib.parse import urlsplit

from . import kernel

MS = 10 ** 6


class Net(object):
    """Part of the scheduler process."""

    def __init__(self, rng, plan=()):
        self.rng = rng
        self.plan = dict((f["n"], f) for f in plan)
        self.count = 0
        self.queues = {}         # host -> [(due, token, message)]
        self.ready = {}          # token -> (due, reply)
        self.serving = {}        # server process -> (host, token)
        self.hosts = {}          # host -> number of live servers
        self.log = []            # (n, method, path, fault, status)
        self.fired = {}

    def fault(self, number):
        return self.plan.get(number, {}).get("act")

    def due(self, ker, ms=None):
        ms = self.rng.randrange(1, 40) if ms is None else ms
        return ker.world.clock.mono + ms * MS

    # ----------------------------------------------------------------- client
    def request(self, ker, proc, host, message):
        token = self.count
        self.count += 1
        act = self.fault(token)
        self.log.append([token, message[0], message[1][:60], act, None])
        if act:
            self.fired[act] = self.fired.get(act, 0) + 1
        if host not in self.hosts or act == "refuse":
            self.answer(ker, token, ("error", "refused"))
            return token
        if act == "lost":
            self.answer(ker, token, ("error", "timeout"), 30000)
            return token
        if act == "503":
            self.answer(ker, token, ("ok", 503, [("Content-Type", "text/html")], b"<html>busy</html>"))
            return token
        copies = 2 if act == "dup" else 1
        for copy in range(copies):
            wait = None if act != "late" else self.plan[token].get("ms", 500)
            if copy:
                wait = self.plan[token].get("ms", 200)
            self.queues.setdefault(host, []).append((self.due(ker, wait), token, message))
        if act == "late":
            self.answer(ker, token, ("error", "timeout"), 100)
        return token

    def answer(self, ker, token, reply, ms=None):
        if token not in self.ready:
            self.ready[token] = (self.due(ker, ms), reply)
            self.log[token][4] = reply[1]

    def can_wait(self, ker, proc, token):
        return token in self.ready and self.ready[token][0] <= ker.world.clock.mono

    def wait(self, ker, proc, token):
        return self.ready[token][1]

    def wakes(self):
        return ([d for d, _ in self.ready.values()] +
                [d for rows in self.queues.values() for d, _, _ in rows])

    # ----------------------------------------------------------------- server
    def can_accept(self, ker, proc, host):
        return any(d <= ker.world.clock.mono for d, _, _ in self.queues.get(host, ()))

    def accept(self, ker, proc, host):
        rows = self.queues[host]
        some = [i for i, row in enumerate(rows) if row[0] <= ker.world.clock.mono]
        _, token, message = rows.pop(some[self.rng.randrange(len(some))])
        self.serving[proc.number] = (host, token)
        return token, message

    def respond(self, ker, proc, host, token, reply):
        self.serving.pop(proc.number, None)
        if self.fault(token) == "noreply":
            self.answer(ker, token, ("error", "timeout"), 30000)
        else:
            self.answer(ker, token, ("ok",) + reply)

    def died(self, ker, proc):
        """A server process ended: its client sees the connection close."""
        host, token = self.serving.pop(proc.number, (None, None))
        if token is not None:
            self.answer(ker, token, ("error", "reset"))

    def down(self, ker, host):
        """No process serves the host any more."""
        self.hosts.pop(host, None)
        for _, token, _ in self.queues.pop(host, ()):
            self.answer(ker, token, ("error", "refused"))


# ------------------------------------------------------------- in a process
def install_client():
    """Make the real requests library send through the scheduler."""
    import requests
    from urllib3 import HTTPResponse

    def send(self, request, **_):
        url = urlsplit(request.url)
        body = request.body
        if hasattr(body, "read"):
            body = body.read()
        if isinstance(body, str):
            body = body.encode("utf-8")
        path = url.path + ("?" + url.query if url.query else "")
        token = kernel.call("net_request", url.netloc, (request.method, path, list(request.headers.items()), body or b""))
        reply = kernel.call("net_wait", token)
        if reply[0] == "error":
            cls = requests.exceptions.ReadTimeout if reply[1] == "timeout" else requests.exceptions.ConnectionError
            raise cls("simulated: " + reply[1], request=request)
        _, status, headers, data = reply
        return self.build_response(request, HTTPResponse(
            body=io.BytesIO(data), headers=dict(headers), status=status, preload_content=False))
    requests.adapters.HTTPAdapter.send = send


def open_app(app, message):
    """One request on the WSGI application."""
    from werkzeug.test import EnvironBuilder, run_wsgi_app
    method, path, headers, body = message
    path, _, query = path.partition("?")
    builder = EnvironBuilder(path=path, query_string=query, method=method, data=body,
                             headers=[h for h in headers if h[0].lower() != "content-length"])
    parts, status, head = run_wsgi_app(app, builder.get_environ(), buffered=True)
    return int(status.split()[0]), list(head), b"".join(parts)


def machine(name):
    """What the process sees of the machine that it runs on."""
    import getpass
    import socket
    socket.gethostname = lambda: name
    getpass.getuser = lambda: "user"


def serve(host, engine):
    """`now vis`, serving one request at a time until it is killed."""
    from noworkflow.now.persistence import persistence_config
    machine(host)
    persistence_config.content_engine = engine
    persistence_config.connect(".")
    from noworkflow.now.vis.views import app
    app.logger.disabled = True
    while True:
        token, message = kernel.call("net_accept", host)
        kernel.call("net_respond", host, token, open_app(app, message))
