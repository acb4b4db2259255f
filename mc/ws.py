"""
The client side of a WebSocket connection to a real autobahn server protocol, byte by
byte.
"""

import json
import struct

from twisted.internet.address import IPv4Address
from twisted.internet.error import ConnectionDone
from twisted.internet.testing import StringTransport
from twisted.python.failure import Failure

HANDSHAKE = (
    b"GET / HTTP/1.1\r\nHost: 127.0.0.1:1\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
    b"Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n"
)


def frame(opcode, payload):
    mask = b"\x01\x02\x03\x04"
    n = len(payload)
    if n < 126:
        head = struct.pack("!BB", 0x80 | opcode, 0x80 | n)
    else:
        head = struct.pack("!BBH", 0x80 | opcode, 0x80 | 126, n)
    return head + mask + bytes(c ^ mask[i % 4] for i, c in enumerate(payload))


class Transport(StringTransport):
    def unregisterProducer(self):
        # as the real transports do, with or without a producer
        self.producer = None


class Peer:
    """
    :ivar got: decoded messages
    :ivar closed: (code, reason) of the server's close frame
    """

    def __init__(self, factory):
        self.proto = factory.buildProtocol(IPv4Address("TCP", "127.0.0.1", 1))
        self.transport = Transport()
        self.lost = False
        self.raw = b""
        self.upgraded = False
        self.got = []
        self.closed = None
        self.proto.makeConnection(self.transport)
        self.feed(HANDSHAKE)
        self.read()
        assert self.upgraded, self.raw

    def feed(self, data):
        if not self.lost:
            self.proto.dataReceived(data)

    def send(self, payload):
        self.feed(frame(1, payload))

    def close(self):
        """The closing handshake; the TCP connection remains."""
        self.feed(frame(8, struct.pack("!H", 1000)))

    def drop(self):
        self.lost = True
        self.proto.connectionLost(Failure(ConnectionDone()))

    def read(self):
        self.raw += self.transport.value()
        self.transport.clear()
        if not self.upgraded:
            head, sep, rest = self.raw.partition(b"\r\n\r\n")
            if not sep:
                return
            assert b" 101 " in head.split(b"\r\n")[0] + b" ", head
            self.upgraded = True
            self.raw = rest
        while len(self.raw) >= 2:
            op, n = self.raw[0] & 15, self.raw[1] & 127
            at = 2
            if n == 126:
                (n,) = struct.unpack("!H", self.raw[2:4])
                at = 4
            if len(self.raw) < at + n:
                break
            payload, self.raw = self.raw[at : at + n], self.raw[at + n :]
            if op == 1:
                self.got.append(json.loads(payload))
            elif op == 2:
                self.got.append(payload)
            elif op == 8:
                self.closed = (
                    struct.unpack("!H", payload[:2])[0] if payload else None,
                    payload[2:].decode("utf-8"),
                )
