"""
P06: the recovery interface reports every outcome to every client.
"""

import json
import os
import shutil
import sqlite3

import tahoe_capabilities as tc

import _zkapauthorizer.resource  # noqa: F401 (selects autobahn's framework)
from _zkapauthorizer.model import VoucherStore
from _zkapauthorizer.recover import get_tahoe_lafs_downloader
from _zkapauthorizer.replicate import with_replication
from _zkapauthorizer.resource import RecoverFactory

import P04
from mc import zk
from mc.core import Violation, check
from mc.grid import Client, Grid
from mc.runner import Check, Scenario
from mc.ws import Peer

TERMINAL = {"succeeded", "download_failed", "import_failed"}
ORDER = ["inactive", "started", "inspect_replica", "downloading", "importing"]


def request(cap):
    return json.dumps({"recovery-capability": tc.danger_real_capability_string(cap)}).encode()


class Subscriber:
    def __init__(self, world, name):
        self.world, self.name = world, name
        self.peer = Peer(world.factory)
        self.asked = None  # what it asked for first
        self.gone = False
        self.refused = False
        self.seen_at_ask = 0


class World:
    def __init__(self, ch, b):
        self.ch, self.b = ch, b
        self.kind = ch.pick(b["kinds"], "replica")
        self.empty = not (b["locals"] and ch.choose(2, "local", ["empty", "has vouchers"]))
        contents, self.expected = P04.build()[self.kind]
        self.grid = Grid()
        self.cap = self.grid.make_directory()
        for name, data in contents.items():
            self.grid.link(self.cap, name, self.grid.add_file(data))
        self.cap2 = self.grid.make_directory()
        self.dir = zk.fresh_path("node")
        os.makedirs(self.dir)
        self.path = zk.new_db()
        self.conn = zk.open_conn(self.path)
        self.broken = False
        self.conn.hook = self.hook
        self.store = VoucherStore.from_connection(2**20, lambda: zk.NOW, with_replication(self.conn, False))
        if not self.empty:
            P04.fill(self.store, 1, ())
        self.client = Client(self.grid, self.dir)
        self.factory = RecoverFactory(self.store, get_tahoe_lafs_downloader(self.client))
        # no timers on the global reactor
        self.factory.setProtocolOptions(openHandshakeTimeout=0, closeHandshakeTimeout=0)
        self.subs = []
        self.started = False
        self.failed = False
        self.left = {k: b.get(k, 0) for k in ("failures", "again", "leaves", "bad", "others", "commit")}

    def hook(self, kind, sql):
        if kind == "commit" and self.broken:
            self.broken = False
            raise sqlite3.OperationalError("disk I/O error")

    # ------------------------------------------------------------ events

    def acts(self):
        out = []
        if self.client.pending:
            out.append(("ok",))
            if self.left["failures"]:
                out.append(("fail",))
            if self.left["commit"] and self.client.pending[0].name == "download":
                out.append(("commit-fails",))
        if len(self.subs) < self.b["clients"]:
            out.append(("ask", "A"))
            if self.left["others"]:
                out.append(("ask", "B"))
            if self.left["bad"]:
                out += [("bad", i) for i in range(len(BAD))]
        for i, s in enumerate(self.subs):
            if s.gone or s.refused or s.peer.closed is not None:
                continue
            if self.left["again"]:
                out.append(("again", i, "A"))
                if self.left["others"]:
                    out.append(("again", i, "B"))
            if self.left["leaves"]:
                out += [("close", i), ("drop", i)]
        if not self.client.pending and self.started:
            out.append(("end",))
        return out

    def do(self, ev):
        kind = ev[0]
        if kind in ("ok", "fail"):
            if kind == "fail":
                self.left["failures"] -= 1
                self.failed = True
            getattr(self.client.pending[0], kind)()
        elif kind == "commit-fails":
            self.left["commit"] -= 1
            self.broken = True
        elif kind == "ask":
            s = Subscriber(self, len(self.subs))
            self.subs.append(s)
            self.ask(s, ev[1])
        elif kind == "bad":
            self.left["bad"] -= 1
            s = Subscriber(self, len(self.subs))
            self.subs.append(s)
            s.peer.send(BAD[ev[1]](self))
            self.read()
            check(
                s.peer.closed is not None and s.peer.closed[0] == 4000 and s.peer.closed[1],
                "a bad request is not refused with the reason",
                closed=s.peer.closed,
                request=BAD[ev[1]](self),
            )
            check(not s.peer.got, "a bad request is answered with updates", got=s.peer.got)
            s.refused = True
        elif kind == "again":
            self.left["again"] -= 1
            self.ask(self.subs[ev[1]], ev[2])
        elif kind == "close":
            self.left["leaves"] -= 1
            s = self.subs[ev[1]]
            s.peer.close()
            s.gone = True
        elif kind == "drop":
            self.left["leaves"] -= 1
            s = self.subs[ev[1]]
            s.peer.drop()
            s.gone = True
        self.read()

    def ask(self, s, which):
        if which == "B":
            self.left["others"] -= 1
        if not self.started:
            self.started = True
            self.which = which
        before = len(s.peer.got)
        s.peer.send(request((self.cap if which == "A" else self.cap2).reader))
        self.read()
        if which != self.which:
            check(
                s.peer.closed is not None and s.peer.closed[0] == 4000 and s.peer.closed[1],
                "another capability is not refused with the reason",
                closed=s.peer.closed,
            )
            check(len(s.peer.got) == before, "a refused client is sent updates", got=s.peer.got)
            s.refused = True
        elif s.asked is None:
            s.asked = which

    def read(self):
        for s in self.subs:
            n = len(s.peer.got)
            s.peer.read()
            if s.refused:
                check(len(s.peer.got) == n, "a refused client is sent updates", got=s.peer.got[n:])

    # ------------------------------------------------------------ oracle

    def followers(self):
        return [s for s in self.subs if s.asked is not None and not s.refused]

    def audit(self):
        seqs = [(s, [m.get("stage") if isinstance(m, dict) else m for m in s.peer.got]) for s in self.followers()]
        present = [q for s, q in seqs if not s.gone]
        for s, q in seqs:
            for m in s.peer.got:
                check(
                    isinstance(m, dict) and set(m) == {"stage", "failure-reason"},
                    "an update is not a state",
                    update=m,
                )
            other = present[0] if present else q
            check(
                q == other[: len(q)],
                "two clients are told different things",
                one=q,
                another=other,
            )
            if not s.gone:
                check(q == other, "a client misses updates or gets them twice", one=q, another=other)
            ends = [x for x in q if x in TERMINAL]
            steps = [x for x in q if x not in TERMINAL]
            check(
                steps == sorted(set(steps), key=ORDER.index),
                "the progress reported is not in order",
                got=q,
            )
            check(q[: len(steps)] == steps, "there is progress after the end", got=q)
        if self.client.pending:
            for s in self.followers():
                if not s.gone:
                    check(s.peer.closed is None, "a client is disconnected while the recovery runs", closed=s.peer.closed)
        elif self.started:
            self.ended()

    def ended(self):
        """There is nothing left to wait for."""
        check(not self.conn.in_transaction, "a transaction is left open")
        vouchers = self.store.list()
        recovered = self.empty and bool(vouchers)
        for s in self.followers():
            if s.gone:
                continue
            check(s.peer.got, "a client is told nothing", name=s.name)
            last = s.peer.got[-1]
            check(
                s.peer.closed is not None,
                "a client is left waiting after the recovery ended",
                got=s.peer.got,
            )
            check(s.peer.closed[0] in (None, 1000), "a client of the recovery is refused", closed=s.peer.closed)
            check(
                last["stage"] in TERMINAL,
                "the last state reported is not an outcome",
                got=s.peer.got,
            )
            check(
                (last["stage"] == "succeeded") == (last["failure-reason"] is None),
                "a failure without a reason",
                last=last,
            )
            check(
                (last["stage"] == "succeeded") == recovered,
                "the outcome reported is not what happened",
                last=last,
                vouchers=len(vouchers),
            )
        good = self.expected is not None and self.which == "A" and self.empty and not self.failed
        if good and not self.b.get("commit"):
            check(recovered, "a recovery of a good replica fails")

    def key(self):
        return (
            self.left,
            self.kind,
            self.empty,
            self.started,
            getattr(self, "which", None),
            self.failed,
            self.broken,
            [repr(o) for o in self.client.pending],
            len(getattr(self.factory, "clients", ())),
            sorted(
                repr((s.asked, s.gone, s.refused, s.peer.closed, s.peer.got, s.peer.lost)) for s in self.subs
            ),
        )

    def run(self):
        while True:
            acts = self.acts()
            ev = acts[self.ch.choose(len(acts), "do", [" ".join(map(str, a)) for a in acts])]
            if ev == ("end",):
                break
            self.do(ev)
            self.audit()
            self.ch.visit(self.key)
        last = [s.peer.got[-1]["stage"] for s in self.followers() if s.peer.got]
        return last[0] if last else "nobody"

    def close(self):
        self.conn.close()
        zk.remove(self.path)
        shutil.rmtree(self.dir, ignore_errors=True)


CHK = tc.CHKRead.derive(b"k" * 16, b"h" * 32, 3, 10, 99)
BAD = [
    lambda w: b"some bytes that are not json",
    lambda w: b"[]",
    lambda w: b'"recovery-capability"',
    lambda w: b"{}",
    lambda w: json.dumps({"recovery-capability": None}).encode(),
    lambda w: json.dumps({"recovery-capability": []}).encode(),
    lambda w: json.dumps({"recovery-capability": "hello world"}).encode(),
    lambda w: json.dumps({"recovery-capability": tc.danger_real_capability_string(w.cap.reader), "a": 1}).encode(),
    lambda w: request(w.cap),
    lambda w: request(CHK),
]


def make(b):
    def scenario(ch):
        w = World(ch, b)
        try:
            return w.run()
        finally:
            w.close()

    return scenario


CHECK = Check(
    "P06",
    "model_checking",
    "all interleavings of clients asking (for the same or another capability, once or twice, or badly), leaving with "
    "and without a closing handshake, and gateway operations completing or failing",
    ["the WebSocket library frames messages correctly"],
    [
        Scenario(
            "clients",
            make,
            quick=dict(kinds=["good"], locals=True, clients=3, failures=1, leaves=1, others=1, again=1),
            thorough=dict(kinds=["good", "bad event"], locals=True, clients=4, failures=1, leaves=2, others=2, again=2),
        ),
        Scenario(
            "replicas",
            make,
            quick=dict(kinds=P04.KINDS, locals=True, clients=2, failures=1, leaves=1, others=1),
            thorough=dict(kinds=P04.KINDS, locals=True, clients=3, failures=1, leaves=2, others=1, again=1),
        ),
        Scenario(
            "requests",
            make,
            quick=dict(kinds=["good"], locals=True, clients=3, failures=1, bad=2),
            thorough=dict(kinds=["good", "nothing"], locals=True, clients=4, failures=1, bad=3, leaves=1),
        ),
        Scenario(
            "commit",
            make,
            quick=dict(kinds=["good", "bad event"], locals=False, clients=2, failures=1, commit=1, leaves=1),
            thorough=dict(kinds=P04.KINDS, locals=True, clients=3, failures=1, commit=1, leaves=2),
        ),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
