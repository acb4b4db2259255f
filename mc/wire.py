"""
A real Foolscap connection in memory: two ``Broker`` objects with the real call, schema
and error machinery; which bytes arrive when, and where the connection is lost, is for
the explorer to say.
"""

from foolscap import broker, eventual, referenceable
from foolscap.referenceable import TubRef
from foolscap.remoteinterface import getRemoteInterface
from twisted.internet.error import ConnectionLost
from twisted.python.failure import Failure

_queue = eventual._theSimpleQueue


def _append(cb, args, kwargs):
    # no reactor: ``settle`` runs the queue
    _queue._events.append((cb, args, kwargs))


_queue.append = _append

# When a reference is collected is up to the garbage collector; telling the other side
# to forget it would make the bytes on the wire depend on that.
referenceable.RemoteReferenceTracker._refLost = lambda self, wref: None

PARAMS = {
    "banana-decision-version": 3,
    "initial-vocab-table-index": 1,
}


def settle():
    """Run everything which Foolscap has put off to a later turn."""
    while _queue._events:
        _queue._turn()


class _Pipe:
    """One direction of the connection, and the transport of its sender."""

    def __init__(self, wire):
        self.wire = wire
        self.buffer = []

    def write(self, data):
        if self.wire.alive:
            self.buffer.append(bytes(data))

    def pending(self):
        return sum(map(len, self.buffer))

    def take(self, n=None):
        data = b"".join(self.buffer)
        n = len(data) if n is None else n
        self.buffer = [data[n:]] if n < len(data) else []
        return data[:n]

    def loseConnection(self, why=None):
        eventual.eventually(self.wire.lose)

    def getPeer(self):
        return broker.LoopbackAddress()

    getHost = getPeer


class Wire:
    """
    A connection between a client and a server.

    :ivar up: Bytes on their way to the server.
    :ivar down: Bytes on their way to the client.
    """

    def __init__(self):
        self.alive = True
        self.client = broker.Broker(TubRef("server"), dict(PARAMS))
        self.server = broker.Broker(TubRef("client"), dict(PARAMS))
        for b in (self.client, self.server):
            # what Tahoe-LAFS sets
            b._expose_remote_exception_types = False
            b.unsafeTracebacks = False
        self.up = _Pipe(self)
        self.down = _Pipe(self)
        self.client.transport = self.up
        self.server.transport = self.down
        self.client.connectionMade()
        self.server.connectionMade()
        settle()

    def reference(self, target, named=True):
        """
        :return: What the client has of an object of the server.
        """
        tracker = self.server.getTrackerForMyReference(target.processUniqueID(), target)
        tracker.send()
        name = getRemoteInterface(target).__remote_name__ if named else None
        return self.client.getTrackerForYourReference(tracker.clid, name).getRef()

    def deliver(self, pipe, n=None):
        """Let (the first ``n``) bytes of one direction arrive."""
        data = pipe.take(n)
        to = self.server if pipe is self.up else self.client
        try:
            to.dataReceived(data)
        except Exception:
            # a real transport hangs up
            self.lose()
        settle()

    def lose(self):
        """The connection is lost; what is on its way is lost, too."""
        if not self.alive:
            return
        self.alive = False
        self.up.buffer = []
        self.down.buffer = []
        why = Failure(ConnectionLost("cut"))
        self.client.connectionLost(why)
        self.server.connectionLost(why)
        settle()

    def pump(self):
        """Deliver everything in both directions until nothing is on its way."""
        settle()
        while self.alive and (self.up.pending() or self.down.pending()):
            if self.up.pending():
                self.deliver(self.up)
            if self.alive and self.down.pending():
                self.deliver(self.down)
        settle()
