"""
E01: a whole node on a whole grid: what is stored is paid for once and exactly, can be
read, is kept by lease maintenance, and what was bought survives in the replica.
"""

# (installs the reactor)
from mc import whole  # isort: skip

import base64
import json
import os
from urllib.parse import quote

from allmydata import uri
from allmydata.util.base32 import b2a as si_b2a
from challenge_bypass_ristretto import BlindedToken
from twisted.internet.address import IPv4Address

import R02
import W01
from mc import http, zk
from mc.core import check
from mc.runner import Check, Scenario
from mc.ws import HANDSHAKE, Transport, frame

ISSUER = "http://127.0.0.1:8080/"
PV = 10000
PAID = ("allocate_buckets", "add_lease", "slot_testv_and_readv_and_writev")
PERIOD = 31 * 24 * 60 * 60
MEAN = 100000
MINIMUM = PERIOD - 50000


def ceil(n, pv=PV):
    return -(-n // pv)


def content(i, size):
    return (b"%d-" % i + b"0123456789abcdef" * (size // 16 + 1))[:size]


class World:
    def __init__(self, b):
        whole.power_off()
        self.b = b
        W01.keys()
        self.key = W01.keys()["good"]
        self.dir = zk.fresh_path("grid")
        os.makedirs(self.dir)
        key_path = os.path.join(self.dir, "signing.key")
        with open(key_path, "wb") as f:
            f.write(self.key.encode_base64())
        self.storages = [whole.Storage(key_path, ISSUER, PV) for _ in range(b["servers"])]
        self.grid = whole.Grid(self.storages, self.issue)
        self.blinded = set()
        self.lost = False  # has a connection been lost while it was in use?
        self.issuer_up = True
        self.files = {}  # name -> (capability, content, mutable)
        self.vouchers = 0
        self.n = 0
        self.replica = None
        self.up = set(range(b["servers"]))
        self.rootcap = None
        self.linked = set()
        self.old = []
        self.a = None
        self.start()

    # -- the node

    def settings(self):
        return [
            "ristretto-issuer-root-url = " + ISSUER,
            "allowed-public-keys = " + R02.public(self.key),
            "default-token-count = %d" % self.b["tokens"],
            "pass-value = %d" % PV,
            "lease.crawl-interval.mean = %d" % MEAN,
            "lease.crawl-interval.range = 0",
            "lease.min-time-remaining = %d" % MINIMUM,
        ]

    def node(self, port, directory=None):
        n = self.b["servers"]
        node = whole.Node(
            self.settings(),
            client=["shares.needed = 1", "shares.happy = 1", "shares.total = %d" % n],
            servers=[
                whole.announcement(None, **s.announcement) for s in self.storages
            ],
            directory=directory,
            port=port,
        )
        node.write("node.url", b"http://127.0.0.1:%d/" % port)
        return node

    def start(self, directory=None):
        # a node makes requests to itself before its web server is there
        self.a = self.node(1234, directory)
        for _ in range(3):
            self.grid.step()
        self.a.client.startService()
        self.grid.add(self.a)
        self.grid.run()
        for i in sorted(self.up):
            self.grid.connect(self.a, i)
        self.grid.run()

    def store(self):
        return whole.PLUGIN._get_store(self.a.config)

    def request(self, method, path, body=b"", node=None, headers=()):
        node = node or self.a
        get = node.ask(method, path, body, headers)
        self.grid.run(lambda: get() is not None)
        for _ in range(40):
            if get() is not None:
                break
            # something waits for a while
            whole.advance(5)
            self.grid.run(lambda: get() is not None)
        check(get() is not None, "a request is never answered", request=(method, path))
        self.grid.run()
        return get()

    # -- the issuer

    def issue(self, ex):
        if not self.issuer_up:
            ex.refuse()
            return
        ex.accept()
        doc = json.loads(ex.request().body)
        blinded = [BlindedToken.decode_base64(t.encode()) for t in doc["redeemTokens"]]
        self.blinded |= set(doc["redeemTokens"])
        ex.send(http.response(200, json.dumps(R02.sign(self.key, blinded)).encode()))

    # -- what is asked of it

    def do(self, op):
        return getattr(self, "do_" + op.split(" ")[0])(*op.split(" ")[1:])

    def do_voucher(self):
        self.vouchers += 1
        v = zk.voucher_number(self.vouchers)
        r = self.a.ask(
            b"PUT",
            b"/storage-plugins/%s/voucher" % whole.NAME.encode(),
            json.dumps({"voucher": v.decode()}).encode(),
            whole.JSON,
        )
        self.grid.run()
        check(r() is not None and r().status == 200, "a voucher is not accepted", answer=r())
        self.grid.run()

    def spent_by(self, f):
        """
        :return: (result, number of passes accepted by servers meanwhile)
        """
        before = len(self.accepted())
        self.marks = [len(s.calls) for s in self.storages]
        r = f()
        return r, len(self.accepted()) - before

    def new_calls(self):
        return [c for s, m in zip(self.storages, self.marks) for c in s.calls[m:] if c[2] == "ok"]

    def enough(self, r):
        """Has it failed for want of what it needs?"""
        return r.status in (200, 201)

    def do_put(self, size):
        self.n += 1
        data = content(self.n, int(size))
        have = len(self.kept())
        r, spent = self.spent_by(lambda: self.request(b"PUT", b"/uri", data))
        if not self.up:
            check(r.status >= 400, "data is stored without servers", answer=r)
            return "failed"
        if r.status == 200:
            self.files["f%d" % self.n] = (r.body, data, False)
            if self.replica is None:
                new = [c for c in self.new_calls() if c[0] == "allocate_buckets"]
                price = sum(len(c[3][1]) * ceil(c[1][5]) for c in new)
                check(spent == price, "a file does not cost what its shares take", spent=spent, price=price)
            return "stored"
        price = len(self.up) * ceil(int(size))
        check(have < price + 10 * len(self.up), "data is not stored although there are tokens", answer=r, have=have)
        return "refused"

    def do_mutable(self, size):
        self.n += 1
        data = content(self.n, int(size))
        have = len(self.kept())
        r = self.request(b"PUT", b"/uri?mutable=true&format=SDMF", data)
        if r.status == 200:
            self.files["m%d" % self.n] = (r.body, data, True)
            return "stored"
        check(
            not self.up or have < len(self.up) * (ceil(int(size)) + 10),
            "a mutable file is not stored although there are tokens",
            answer=r,
            have=have,
        )
        return "refused"

    def do_overwrite(self):
        name = sorted(n for n in self.files if n[0] == "m")[-1]
        cap, old, _ = self.files[name]
        self.n += 1
        data = content(self.n, 2 * len(old))
        have = len(self.kept())
        # which of the versions is there after a failure is not certain
        del self.files[name]
        if name in self.linked:
            self.old.append(cap)
        r = self.request(b"PUT", b"/uri/" + quote(cap).encode(), data)
        if r.status == 200:
            self.files[name] = (cap, data, True)
            return "stored"
        check(
            len(self.up) < len(self.storages) or have < len(self.up) * (ceil(len(data)) + 10),
            "a mutable file is not changed although there are tokens",
            answer=r,
            have=have,
        )
        return "refused"

    def do_link(self):
        """A directory which lease maintenance finds, with all files."""
        if self.rootcap is None:
            r = self.request(b"POST", b"/uri?t=mkdir")
            if r.status != 200:
                return "refused"
            self.rootcap = r.body
            self.a.write("private/rootcap", self.rootcap)
        for name, (cap, _, _) in sorted(self.files.items()):
            r = self.request(b"PUT", b"/uri/%s/%s?t=uri&replace=true" % (quote(self.rootcap).encode(), name.encode()), cap)
            if r.status not in (200, 201):
                return "refused"
            self.linked.add(name)
        return "linked"

    def reachable(self):
        """The storage indexes of what is under the root of lease maintenance."""
        if self.rootcap is None:
            return set()
        caps = [self.rootcap] + [self.files[n][0] for n in self.linked if n in self.files] + self.old
        out = set()
        for cap in caps:
            si = uri.from_string(cap).get_storage_index()
            if si is not None:
                out.add(si_b2a(si).decode())
        return out

    def do_leases(self):
        """Until lease maintenance has run once more."""
        service = self.a.service()
        check(service is not None and service.running, "there is no lease maintenance")
        reachable = self.reachable()
        calls = [c for c in whole.R.getDelayedCalls() if getattr(c.func, "__name__", "") == "_iterate"]
        check(len(calls) == 1, "lease maintenance is not about to run", calls=len(calls))
        whole.advance(calls[0].getTime() - whole.R.seconds() - 1)
        self.grid.run()
        have = len(self.kept())
        before = {i: self.leases(i) for i in self.up}
        whole.advance(1)
        _, spent = self.spent_by(lambda: self.grid.run())
        now = whole.R.seconds()
        seen = price = 0
        for i in sorted(self.up):
            after = self.leases(i)
            for si in sorted({si for si, n in before[i]}):
                shares = {k: v for k, v in before[i].items() if k[0] == si}
                cost = sum(ceil(size) for _, size in shares.values())
                due = min(e for e, _ in shares.values()) - now <= MINIMUM
                if si not in reachable:
                    check(
                        all(after[k] == v for k, v in shares.items()),
                        "a lease changed of something which is not under the root",
                    )
                    continue
                seen += cost
                if due:
                    price += cost
                    if have >= price:
                        check(
                            all(after[k][0] >= int(now) + PERIOD for k in shares),
                            "a lease is not renewed although there are tokens",
                            now=now,
                            shares=repr(shares),
                            got=repr({k: after[k] for k in shares}),
                            have=have,
                            price=price,
                            server=i,
                            index=si,
                        )
                elif have >= price:
                    check(
                        all(after[k] == v for k, v in shares.items()),
                        "a lease is renewed which is not due",
                        server=i,
                        index=si,
                    )
        if have >= price and self.replica is None and set(before) == self.up:
            check(spent == price, "lease maintenance does not cost what the shares take", spent=spent, price=price)
        doc = json.loads(self.a.web(b"GET", b"/lease-maintenance").body)
        check(doc["total"] == len(self.kept()), "the number of tokens is not reported truly", got=doc["total"])
        if self.rootcap is not None and len(self.up) == len(self.storages):
            check(
                doc["spending"] is not None and doc["spending"]["count"] == seen,
                "lease maintenance reports another price than that of what it found",
                got=doc["spending"],
                want=seen,
            )
        return "%d due" % (price > 0)

    def leases(self, i):
        """{(storage index, share number): (the latest expiration, size)}"""
        out = {}
        for k, sf in self.storages[i].shares().items():
            leases = list(sf.get_leases())
            if hasattr(sf, "readv"):
                size = len(sf.readv([(0, 1 << 24)])[0])
            else:
                size = sf.get_length()
            out[k] = (max(x.get_expiration_time() for x in leases) if leases else 0, size)
        return out

    def do_day(self):
        whole.advance(60000)
        self.grid.run()

    def do_down(self, i=None):
        for i in sorted(self.up) if i is None else [int(i)]:
            self.up.discard(i)
            self.grid.lose(self.a, i)
        self.grid.run()

    def do_upward(self):
        for i in sorted(set(range(len(self.storages))) - self.up):
            self.up.add(i)
            self.grid.connect(self.a, i)
        self.grid.run()

    def do_crash(self):
        """All processes of this machine end and start again."""
        for k in list(self.grid.wires):
            self.grid.lose(*k)
        whole.power_off()
        self.grid.remove(self.a)
        self.grid.loops = []
        self.grid.taken = 0
        self.start(self.a.dir)

    def do_replicate(self):
        r = self.request(b"POST", b"/storage-plugins/%s/replicate" % whole.NAME.encode(), b"", headers=whole.JSON)
        if r.status in (200, 201):
            self.replica = json.loads(r.body)["recovery-capability"]
            return "replicating"
        return "refused %d" % r.status

    # -- what is to be seen

    def accepted(self):
        """The numbers of the passes in all calls which servers have accepted."""
        out = []
        for s in self.storages:
            for name, args, kind, value in s.calls:
                if name in PAID and kind == "ok":
                    out += [base64.b64decode(p.split(b" ")[0]) for p in args[0]]
        return out

    def kept(self):
        cur = self.store()._connection._conn.cursor()
        cur.execute("select [token] from [unblinded-tokens]")
        return {base64.b64decode(r[0])[:64] for r in cur.fetchall()}

    def invariants(self, final=False):
        accepted = self.accepted()
        kept = self.kept()
        if self.lost:
            # an answer may have been lost, and with it that a token is spent
            check(
                len(kept | set(accepted)) == len(self.blinded),
                "a token which was bought is neither kept nor spent",
                bought=len(self.blinded),
                kept=len(kept),
                spent=len(set(accepted)),
            )
        else:
            check(len(set(accepted)) == len(accepted), "a token is accepted twice")
            check(not kept & set(accepted), "a token which was accepted is still kept")
            check(
                len(kept) + len(accepted) == len(self.blinded),
                "the tokens which were bought are not those which are kept and spent",
                bought=len(self.blinded),
                kept=len(kept),
                spent=len(accepted),
            )
        store = self.store()
        check(store.count_unblinded_tokens() == len(kept), "the number of tokens is not reported truly")
        if final:
            # nothing is in use for ever (not asked before because it changes the
            # database, which has effects)
            got = store.get_unblinded_tokens(len(kept))
            store.reset_unblinded_tokens(got)
            check(len(got) == len(kept), "a token stays in use", kept=len(kept), free=len(got))
        for i, s in enumerate(self.storages):
            check(s.orig.allocated_size() == 0, "a share stays incomplete", server=i)

    def read_back(self, node=None):
        for name, (cap, data, mutable) in sorted(self.files.items()):
            if not self.up:
                continue
            r = self.request(b"GET", b"/uri/" + quote(cap).encode(), node=node)
            if r.status == 200 and r.body == data:
                continue
            # (a server which was not there may hold the only shares)
            check(len(self.up) < len(self.storages), "a stored file cannot be read", name=name, answer=r)

    # -- the replica

    def outstanding(self):
        """Are there important changes which are not in the replica?"""
        cur = self.store()._connection._conn.cursor()
        cur.execute("select count(*) from [event-stream] where [important]")
        return cur.fetchone()[0]

    def recovered(self):
        """
        Another machine, with the capability and with the grid.
        """
        b = self.node(1235)
        b.client.startService()
        self.grid.add(b)
        self.grid.run()
        for i in sorted(self.up):
            self.grid.connect(b, i)
        self.grid.run()
        with open(os.path.join(b.dir, "private", "api_auth_token")) as f:
            token = f.read().strip()
        site = b.client.getServiceNamed("webish").site
        proto = site.buildProtocol(IPv4Address("TCP", "127.0.0.1", 1))
        t = Transport()
        t.protocol = proto
        proto.makeConnection(t)
        proto.dataReceived(
            HANDSHAKE.replace(b"GET / ", b"GET /storage-plugins/%s/recover " % whole.NAME.encode()).replace(
                b"Upgrade: websocket", b"Authorization: tahoe-lafs %s\r\nUpgrade: websocket" % token.encode()
            )
        )
        whole.turn()
        t.protocol.dataReceived(frame(1, json.dumps({"recovery-capability": self.replica}).encode()))
        self.grid.run()
        said = t.value().rpartition(b"\r\n\r\n")[2]
        rows = zk.dump(os.path.join(b.dir, "private", "privatestorageio-zkapauthz-v1.sqlite3"))
        b.client.stopService()
        self.grid.run()
        self.grid.remove(b)
        b.close()
        return said, rows

    def check_replica(self):
        """
        With all servers there, and some time later, the replica has what was bought.
        """
        if self.replica is None or len(self.up) < len(self.storages):
            return "-"
        for _ in range(10):
            whole.advance(20)
            self.grid.run()
        mine = zk.dump(os.path.join(self.a.dir, "private", "privatestorageio-zkapauthz-v1.sqlite3"))
        said, theirs = self.recovered()
        if b"succeeded" not in said:
            check(
                len(self.kept()) < self.b["tokens"] // 2,
                "the replica cannot be recovered although there are tokens to upload it",
                said=said,
                outstanding=self.outstanding(),
            )
            return "none"
        # (the random tokens of what is about to be redeemed are as good as the tokens,
        # which they can be redeemed for again)
        kept = {r[0][:84] for r in mine["unblinded-tokens"]}
        pending = {r[0] for r in theirs["vouchers"] if r[2] == "pending"}
        have = {r[0][:84] for r in theirs["unblinded-tokens"]}
        have |= {r[0][:84] for r in theirs["tokens"] if r[1] in pending}
        if len(kept) >= self.b["tokens"] // 2:
            numbers = [r[0] for r in mine["vouchers"]]
            check(
                [r[0] for r in theirs["vouchers"]] == numbers,
                "the vouchers in the replica are not those of the node although there are tokens to upload them",
                mine=mine["vouchers"],
                replica=theirs["vouchers"],
            )
            check(kept <= have, "tokens are not in the replica", missing=len(kept - have), of=len(kept))
            return "all"
        check(
            {r[0] for r in theirs["vouchers"]} <= {r[0] for r in mine["vouchers"]},
            "a voucher in the replica is not one of the node",
        )
        return "part"

    def close(self):
        for k in list(self.grid.wires):
            self.grid.lose(*k)
        whole.power_off()
        for n in list(self.grid.nodes.values()):
            n.close()
        for s in self.storages:
            s.close()


def options(w, ops, b):
    out = []
    if w.vouchers < b["vouchers"]:
        out.append("voucher")
    out += ["put %d" % n for n in b["sizes"]]
    out.append("mutable 100")
    if any(n[0] == "m" for n in w.files):
        out.append("overwrite")
    if w.files:
        out.append("link")
    if w.rootcap is not None:
        out.append("leases")
        if ops[-1] != "day":
            out.append("day")
    if len(w.up) == len(w.storages):
        out += ["down 0", "down"]
    else:
        out.append("upward")
    if ops[-1] != "crash":
        out.append("crash")
    if w.replica is None and w.up:
        # (without any server it waits for one)
        out.append("replicate")
    return out


def make_histories(b):
    def scenario(ch):
        w = World(b)
        try:
            start, depth = ch.pick(b["starts"], "start")
            ops = start.split(", ")
            for o in ops:
                w.do(o)
            w.invariants()
            for _ in range(depth):
                o = ch.pick(options(w, ops, b), "next")
                ops.append(o)
                r = w.do(o)
                ch.note(r)
                w.invariants()
            w.read_back()
            if len(w.up) < len(w.storages):
                w.do("upward")
                w.read_back()
            r = w.check_replica()
            ch.note(r)
            w.invariants(final=True)
        finally:
            w.close()
        return "%s %s" % (ops[-1].split(" ")[0], r)

    return scenario


def make_interrupted(b):
    def scenario(ch):
        w = World(b)
        try:
            start, op = ch.pick(b["runs"], "run")
            for o in start.split(", "):
                w.do(o)
            how = ch.pick(["connection 0 lost", "power off"], "what happens")
            count = [0]
            at = ch.pick(range(b["from"], b["upto"], b["step"]), "after this many messages")
            done = []

            class Off(BaseException):
                pass

            def hook(where):
                if count[0] == at and not done:
                    done.append(True)
                    if how == "power off":
                        raise Off()
                    w.lost = True
                    w.do("down 0") if 0 in w.up else None
                count[0] += 1

            w.grid.hook = hook
            try:
                r = w.do(op)
            except Off:
                r = "off"
            w.grid.hook = lambda where: None
            if not done:
                # it was over before
                return "-"
            if r == "off":
                w.lost = True
                w.do("crash")
            else:
                w.do("upward")
            # redemption is tried again
            whole.advance(400)
            w.grid.run()
            ch.note(r)
            w.invariants()
            w.read_back()
            # all goes on
            w.do("put 100")
            w.invariants()
            r = "%s %s" % (r, w.check_replica())
            w.invariants(final=True)
        finally:
            w.close()
        return "%s, %s: %s" % (op, how, r)

    return scenario


CHECK = Check(
    "E01",
    "model_checking",
    "executions of complete nodes (Tahoe-LAFS with the real plugin, their web servers, HTTP and Foolscap connections, files and databases) on storage servers and an issuer: all histories of requests, losses of servers, restarts and the passing of time up to a depth, and one request interrupted at every message",
    [
        "the network delivers in order and at once; which messages arrive before a loss is enumerated in \"interrupted\"",
        "Tahoe-LAFS 1.18 itself is trusted",
        "two storage servers, encoding 1 of 2, passes of 10000 bytes",
    ],
    [
        Scenario(
            "histories",
            make_histories,
            quick=dict(
                servers=2,
                tokens=100,
                vouchers=2,
                sizes=[25000],
                starts=[("voucher", 3), ("voucher, put 25000, mutable 100, link", 2), ("voucher, replicate", 2), ("voucher, replicate, down, voucher", 2)],
            ),
            thorough=dict(
                servers=2,
                tokens=100,
                vouchers=2,
                sizes=[100, 25000],
                starts=[("voucher", 4), ("voucher, put 25000, mutable 100, link", 3), ("voucher, replicate", 3), ("voucher, replicate, down, voucher", 3)],
            ),
        ),
        Scenario(
            "interrupted",
            make_interrupted,
            quick=dict(
                servers=2,
                tokens=100,
                runs=[
                    ("voucher", "put 25000"),
                    ("voucher", "mutable 100"),
                    ("voucher, mutable 100", "overwrite"),
                    ("voucher, put 25000, mutable 100, link", "leases"),
                    ("voucher", "replicate"),
                    ("voucher, replicate", "voucher"),
                ],
                **{"from": 0, "upto": 60, "step": 1},
            ),
            thorough=dict(
                servers=2,
                tokens=100,
                runs=[
                    ("voucher", "put 25000"),
                    ("voucher", "mutable 100"),
                    ("voucher, mutable 100", "overwrite"),
                    ("voucher, put 25000, mutable 100, link", "leases"),
                    ("voucher", "replicate"),
                    ("voucher, replicate", "voucher"),
                    ("voucher, put 25000", "link"),
                    ("voucher, replicate", "put 25000"),
                ],
                **{"from": 0, "upto": 400, "step": 1},
            ),
        ),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
