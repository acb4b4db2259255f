"""
A client node around the real plugin: configuration, plugin, HTTP resource tree.
"""

import os
import shutil

from allmydata.client import config_from_string
from twisted.internet.testing import MemoryReactorClock
from twisted.web.server import Site

from _zkapauthorizer import NAME
from _zkapauthorizer._plugin import ZKAPAuthorizer

from . import zk
from .ws import Transport

TOKEN = "test-token-value"


class Reactor(MemoryReactorClock):
    """Memory reactor which runs "when running" hooks when told to."""


class FakeTahoe:
    """Stands for the ``Tahoe`` gateway client of a node."""

    def __init__(self, encoding=None):
        self.encoding = encoding

    def get_config(self):
        from _zkapauthorizer.config import EmptyConfig  # noqa: F401
        from _zkapauthorizer.tahoe import ShareEncoding, TahoeConfig  # noqa: F401

        raise NotImplementedError()


class Node:
    def __init__(self, plugin_config=(), client_config=(), tahoe=None, redeemer=True, now=1700000000, directory=None):
        self.dir = directory or zk.fresh_path("node")
        os.makedirs(os.path.join(self.dir, "private"), exist_ok=True)
        with open(os.path.join(self.dir, "private", "api_auth_token"), "w") as f:
            f.write(TOKEN)
        lines = ["[client]"] + list(client_config)
        lines.append("[storageclient.plugins.%s]" % NAME)
        if redeemer:
            lines += ["redeemer = dummy", "issuer-public-key = KEY", "allowed-public-keys = KEY"]
        lines += list(plugin_config)
        self.config = config_from_string(self.dir, "tub.port", "\n".join(lines) + "\n")
        self.reactor = Reactor()
        self.reactor.advance(now)
        self.tahoe = tahoe
        self.conns = []
        self.plugin = ZKAPAuthorizer(
            NAME, self.reactor, lambda reactor, config: self.tahoe, self._connect
        )

    def _connect(self, path, *a, **kw):
        if not os.path.exists(path):
            shutil.copyfile(zk.template_db(), path)
        conn = zk.connect(path, *a, **kw)
        self.conns.append(conn)
        return conn

    def resource(self):
        return self.plugin.get_client_resource(self.config)

    def close(self):
        for c in self.conns:
            c.kill()
        shutil.rmtree(self.dir, ignore_errors=True)


class Response:
    def __init__(self, raw):
        self.raw = raw
        head, sep, body = raw.partition(b"\r\n\r\n")
        self.complete = bool(sep)
        lines = head.split(b"\r\n")
        self.status = int(lines[0].split(b" ")[1]) if lines[0] else None
        self.headers = {}
        for line in lines[1:]:
            k, _, v = line.partition(b":")
            self.headers.setdefault(k.strip().lower(), []).append(v.strip())
        if self.headers.get(b"transfer-encoding") == [b"chunked"]:
            out = b""
            while body:
                size, _, rest = body.partition(b"\r\n")
                n = int(size, 16)
                if n == 0:
                    break
                out += rest[:n]
                body = rest[n + 2 :]
            body = out
        self.body = body

    def json(self):
        import json

        return json.loads(self.body)

    def __repr__(self):
        return "<%s %r>" % (self.status, self.body[:200])


class Connection:
    """One HTTP connection to a resource tree."""

    def __init__(self, root):
        site = Site(root)
        # no idle timers: the checks have their own clocks
        site.timeOut = None
        self.proto = site.buildProtocol(None)
        self.transport = Transport()
        # a protocol for WebSockets takes its place
        self.transport.protocol = self.proto
        self.proto.makeConnection(self.transport)

    def send(self, raw):
        self.proto.dataReceived(raw)

    def received(self):
        return self.transport.value()


def raw_request(method, path, headers=(), body=b"", token=TOKEN):
    lines = [b"%s %s HTTP/1.1" % (method, path), b"Host: localhost", b"Connection: close"]
    if token is not None:
        lines.append(b"Authorization: tahoe-lafs " + token.encode())
    for k, v in headers:
        lines.append(k + b": " + v)
    if body or method in (b"POST", b"PUT"):
        lines.append(b"Content-Length: %d" % len(body))
    return b"\r\n".join(lines) + b"\r\n\r\n" + body


def request(root, method, path, headers=(), body=b"", token=TOKEN):
    """
    Make one request.  :return: a ``Response``, or ``None`` if there is none yet.
    """
    conn = Connection(root)
    conn.send(raw_request(method, path, headers, body, token))
    raw = conn.received()
    return Response(raw) if raw else None


JSON = [(b"Content-Type", b"application/json")]
