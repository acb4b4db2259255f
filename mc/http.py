"""
The far end of the HTTP connections of a client: a memory reactor whose connections
end at the check, which answers with raw bytes.
"""

from twisted.internet import error, task
from twisted.internet.address import IPv4Address
from twisted.internet.interfaces import IHostnameResolver, IReactorPluggableNameResolver
from twisted.internet.testing import MemoryReactorClock
from twisted.python.failure import Failure
from zope.interface import implementer

from .ws import Transport


@implementer(IHostnameResolver)
class _Resolver:
    """Every name is the local host."""

    def resolveHostName(self, receiver, hostName, portNumber=0, addressTypes=None, transportSemantics="TCP"):
        receiver.resolutionBegan(self)
        receiver.addressResolved(IPv4Address("TCP", "127.0.0.1", portNumber))
        receiver.resolutionComplete()
        return self

    def cancel(self):
        pass


@implementer(IReactorPluggableNameResolver)
class Reactor(MemoryReactorClock):
    nameResolver = _Resolver()

    def installNameResolver(self, resolver):
        raise NotImplementedError()

    def connectTCP(self, host, port, factory, *a, **kw):
        self.attempts.append((host, port, factory))
        return MemoryReactorClock.connectTCP(self, host, port, factory, *a, **kw)

    def __init__(self):
        MemoryReactorClock.__init__(self)
        self.attempts = []


class Request:
    def __init__(self, raw):
        head, sep, body = raw.partition(b"\r\n\r\n")
        self.complete = bool(sep)
        lines = head.split(b"\r\n")
        self.method, self.target, self.version = lines[0].split(b" ", 2)
        self.headers = {}
        for line in lines[1:]:
            k, _, v = line.partition(b":")
            self.headers.setdefault(k.strip().lower(), []).append(v.strip())
        if self.headers.get(b"transfer-encoding") == [b"chunked"]:
            out = b""
            self.complete = False
            while b"\r\n" in body:
                size, _, rest = body.partition(b"\r\n")
                n = int(size, 16)
                if n == 0:
                    self.complete = True
                    break
                out += rest[:n]
                body = rest[n + 2 :]
            body = out
        elif b"content-length" in self.headers:
            self.complete = len(body) == int(self.headers[b"content-length"][0])
        self.body = body

    @property
    def path(self):
        """The decoded segments of the path."""
        from urllib.parse import unquote

        return tuple(unquote(s.decode("ascii")) for s in self.target.partition(b"?")[0].split(b"/")[1:])

    @property
    def query(self):
        from urllib.parse import parse_qsl

        return parse_qsl(self.target.partition(b"?")[2].decode("ascii"), keep_blank_values=True)


class Exchange:
    """One connection."""

    def __init__(self, reactor, host, port, factory):
        self.reactor = reactor
        self.host, self.port, self.factory = host, port, factory
        self.proto = None

    def refuse(self, exc=None):
        self.factory.clientConnectionFailed(None, Failure(exc or error.ConnectionRefusedError()))
        # when the endpoint goes on to its next address (it has none)
        self.reactor.advance(0.3)

    def accept(self):
        self.proto = self.factory.buildProtocol(IPv4Address("TCP", self.host, self.port))
        self.transport = Transport()
        self.transport.protocol = self.proto
        self.proto.makeConnection(self.transport)

    def request(self):
        pump()
        return Request(self.transport.value())

    def send(self, data):
        self.proto.dataReceived(data)

    def close(self, exc=None):
        self.proto.connectionLost(Failure(exc or error.ConnectionDone()))


class Server:
    """The connections which are waiting to be answered."""

    def __init__(self, reactor=None):
        self.reactor = reactor or Reactor()
        self.taken = 0

    def waiting(self):
        return len(self.reactor.attempts) - self.taken

    def next(self):
        e = Exchange(self.reactor, *self.reactor.attempts[self.taken])
        self.taken += 1
        return e


_queue = []


def _schedule(f):
    _queue.append(f)

    class Call:
        def cancel(self):
            if f in _queue:
                _queue.remove(f)

    return Call()


def pump():
    """
    Let cooperative tasks (which send the bodies of requests) go on.
    """
    for _ in range(10000):
        if not _queue:
            return
        _queue.pop(0)()
    raise AssertionError("cooperative tasks do not end")


def install():
    """
    Cooperative tasks run when the check says so.
    """
    task._theCooperator = task.Cooperator(scheduler=_schedule)
    del _queue[:]


def response(status, body=b"", headers=(), chunked=False, length=None, reason=b"Whatever"):
    lines = [b"HTTP/1.1 %d %s" % (status, reason)]
    lines += [k + b": " + v for k, v in headers]
    if chunked:
        lines.append(b"Transfer-Encoding: chunked")
        half = len(body) // 2
        out = b"".join(b"%x\r\n%s\r\n" % (len(p), p) for p in (body[:half], body[half:]) if p)
        body = out + b"0\r\n\r\n"
    else:
        lines.append(b"Content-Length: %d" % (len(body) if length is None else length))
    return b"\r\n".join(lines) + b"\r\n\r\n" + body
