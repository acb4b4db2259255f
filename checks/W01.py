"""
W01: storage calls cross the network unchanged, and a lost connection at any point leaves
both sides in order.
"""

import itertools
import os
import shutil
import struct

from allmydata.storage.common import storage_index_to_dir
from allmydata.storage.server import StorageServer
from allmydata.storage.shares import get_share_file
from challenge_bypass_ristretto import (
    BatchDLEQProof,
    PublicKey,
    RandomToken,
    random_signing_key,
)
from foolscap.ipb import DeadReferenceError
from foolscap.referenceable import Referenceable
from foolscap.tokens import RemoteException
from hyperlink import URL
from prometheus_client import CollectorRegistry
from twisted.internet.defer import Deferred
from twisted.internet.error import ConnectionDone, ConnectionLost
from twisted.internet.task import Clock

from _zkapauthorizer._storage_client import ZKAPAuthorizerStorageClient
from _zkapauthorizer._storage_server import ZKAPAuthorizerStorageServer
from _zkapauthorizer.controller import RistrettoRedeemer
from _zkapauthorizer.model import NotEnoughTokens, UnblindedToken
from _zkapauthorizer.spending import SpendingController

import S03
import V01
from S03 import C1, R1, R2, T0, WE, Ledger
from mc import wire, zk
from mc.core import Violation, check
from mc.runner import Check, Scenario

SIS = [b"storage-index-%02d" % i for i in range(8)]
SI = SIS[0]
SECRETS = (WE, R1, C1)
LOST = (ConnectionLost, ConnectionDone, DeadReferenceError)
MAX_ANSWERS = 3000


def ceil(n, pv):
    return -(-n // pv)


# ------------------------------------------------------------------ tokens

_keys = {}


def keys():
    # made before there are several processes: what is on the wire is part of the
    # state in "two-clients"
    if not _keys:
        _keys.update(good=random_signing_key(), foreign=random_signing_key())
        _keys["tokens"] = dict(good=[], foreign=[])
    return _keys


def tokens(kind, n):
    """``n`` really signed, unblinded tokens, made once per process."""
    k = keys()
    have = k["tokens"][kind]
    if len(have) < n:
        key = k[kind]
        rts = [RandomToken.create() for _ in range(n - len(have))]
        blinded = [t.blind() for t in rts]
        sigs = [key.sign(x) for x in blinded]
        proof = BatchDLEQProof.create(key, blinded, sigs)
        for t in proof.invalid_or_unblind(rts, blinded, sigs, PublicKey.from_signing_key(key)):
            have.append((t.encode_base64(), t.preimage().encode_base64()))
    return have[:n]


class Server:
    """A storage server, with a record of the calls which reach it."""

    def __init__(self, pv, key="good"):
        self.dir = zk.fresh_path("storage")
        self.clock = Clock()
        self.clock.advance(T0)
        self.orig = StorageServer(self.dir, b"n" * 20, clock=self.clock)
        self.registry = CollectorRegistry()
        self.ledger = Ledger()
        self.pv = pv
        self.server = ZKAPAuthorizerStorageServer(
            self.orig,
            pass_value=pv,
            signing_key=keys()[key],
            spender=self.ledger,
            registry=self.registry,
            clock=self.clock,
        )
        self.calls = []  # (method, args, "ok" or "fail", result)
        for name in dir(self.server):
            if name.startswith("remote_"):
                setattr(self.server, name, self.recorded(name[7:], getattr(self.server, name)))

    def recorded(self, name, f):
        def g(*args, **kw):
            names = f.__code__.co_varnames[1 : f.__code__.co_argcount] if kw else ()
            # as positional arguments
            args = list(args) + [kw[n] for n in names if n in kw]
            entry = [name, args, None, None]
            self.calls.append(entry)
            try:
                r = f(*args)
            except Exception as e:
                entry[2:] = ["fail", e]
                raise
            entry[2:] = ["ok", r]
            return r

        g.__name__ = "remote_" + name
        return g

    def path(self, si, n):
        return os.path.join(self.orig.sharedir, storage_index_to_dir(si), "%d" % n)

    def share(self, si, n):
        """(data, number of leases) of a complete share, or None"""
        p = self.path(si, n)
        if not os.path.exists(p):
            return None
        sf = get_share_file(p)
        if hasattr(sf, "readv"):
            [data] = sf.readv([(0, 1 << 26)])
        else:
            data = sf.read_share_data(0, 1 << 26)
        return data, len(list(sf.get_leases()))

    def tree(self):
        """Everything stored, and all books."""
        files = {}
        for d, dirs, names in os.walk(self.dir):
            for n in names:
                p = os.path.join(d, n)
                with open(p, "rb") as f:
                    files[p[len(self.dir) :]] = f.read()
        return (
            files,
            [list(x) for _, x in self.ledger.spent if x],
            self.sample("sum"),
            self.orig.allocated_size(),
        )

    def sample(self, what):
        return self.registry.get_sample_value("zkapauthorizer_server_spending_successes_" + what)

    def incoming(self):
        out = set()
        for d, dirs, names in os.walk(self.orig.incomingdir):
            out |= {os.path.join(os.path.basename(d), n) for n in names}
        return out

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Client:
    """A client with a real store of real tokens, and its connection."""

    def __init__(self, server, good, foreign=(), first_bad=()):
        self.server = server
        self.wire = None
        self.path = zk.new_db()
        self.conn = zk.open_conn(self.path)
        self.store = zk.make_store(self.conn)
        good = tokens("good", good)
        bad = list(tokens("foreign", len(first_bad)))
        toks = list(good)
        for i in sorted(first_bad):
            toks.insert(i, bad.pop())
        self.tokens = toks
        v = zk.voucher_number(1)
        self.store.add(
            v, len(toks), 0, lambda: [zk.random_token("r%d" % i) for i in range(len(toks))]
        )
        self.store.insert_unblinded_tokens_for_voucher(
            v, "key", [UnblindedToken(t) for t, _ in toks], completed=True, spendable=True
        )
        redeemer = RistrettoRedeemer(None, URL.from_text("https://issuer.invalid/"))
        ctl = SpendingController.for_store(redeemer.tokens_to_passes, self.store)
        self.client = ZKAPAuthorizerStorageClient(server.pv, self.get_rref, ctl.get, server.clock)
        self.connect()

    def connect(self):
        self.wire = wire.Wire()
        self.rref = self.wire.reference(self.server.server)

    def get_rref(self):
        return self.rref

    def books(self):
        """(number of tokens which are kept, spent preimages, invalid preimages)"""
        by_text = {t.decode("ascii"): p for t, p in self.tokens}
        cur = self.conn.cursor()

        def rows(sql):
            cur.execute(sql)
            return {r[0] for r in cur.fetchall()}

        kept = rows("select [token] from [unblinded-tokens]")
        invalid = rows("select [token] from [invalid-unblinded-tokens]")
        check(not kept & invalid, "an invalid token is kept for use")
        gone = set(by_text) - kept - invalid
        pre = lambda texts: sorted(by_text[t] for t in texts)
        return len(kept), pre(gone), pre(invalid)

    def available(self):
        """
        The number of tokens which are not in use.
        """
        n = self.store.count_unblinded_tokens()
        got = self.store.get_unblinded_tokens(n)
        self.store.reset_unblinded_tokens(got)
        check(
            len(got) == n == self.store.count_unblinded_tokens(),
            "the number of tokens to spend is not reported truly",
        )
        return n

    def close(self):
        self.conn.kill()
        zk.remove(self.path)


# -------------------------------------------------------------------- calls


def seq(n):
    return (b"0123456789abcdef" * (n // 16 + 1))[:n]


def on_wire(name, args, pv):
    """What the server must get for arguments of the client's method (after passes)."""
    if name == "slot_testv_and_readv_and_writev":
        si, sec, tw, rv = args
        tw = {
            n: ([(o, ln, b"eq", s) for o, ln, s in t], d, e) for n, (t, d, e) in tw.items()
        }
        return [si, sec, tw, rv]
    return list(args)


def plain(x):
    """Comparable form of arguments and results, with their types."""
    if isinstance(x, dict):
        return ("dict", sorted((plain(k), plain(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(plain(v) for v in x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [plain(v) for v in x])
    if type(x).__name__ == "ShareStat":
        return ("ShareStat", repr(x.size), repr(x.lease_expiration))
    if hasattr(x, "callRemote") or isinstance(x, Referenceable):
        return ("reference",)
    return (type(x).__name__, repr(x))


def call_table(b):
    """
    [(name, setup, method, args, expected passes)]
    """
    out = []

    def add(name, method, *args, **kw):
        out.append((name, method, args, kw))

    add("version", "get_version")
    for nums in ({0}, {3, 7, 200}, set(range(30)), set(range(31)), set(range(b["shares"]))):
        for size in (0, 1, 1000, 1001, 2**20):
            if len(nums) * ceil(size, 1000) > b["passes"]:
                continue
            add(
                "allocate %d x %d" % (len(nums), size),
                "allocate_buckets",
                SI, R1, C1, nums, size, Referenceable(),
                cost=len(nums) * ceil(size, 1000),
            )
    add(
        "allocate many passes",
        "allocate_buckets",
        SI, R1, C1, {0, 1}, 1000 * b["passes"] // 2, Referenceable(),
        cost=2 * (b["passes"] // 2),
    )
    for n in (0, 1, 2, 30, 31, 64, 1000, b["indexes"]):
        add("stat %d" % n, "stat_shares", [SIS[1 + i % 4] for i in range(n)], setup="shares")
    # all shares of a file, as one server may have them
    many = list(range(b["shares"]))
    add("stat many shares", "stat_shares", [SIS[6], SIS[1]], setup="many")
    add("lease many shares", "add_lease", SIS[6], R2, C1, setup="many", cost="shares")
    add("buckets many shares", "get_buckets", SIS[6], setup="many")
    add("stat many slots", "stat_shares", [SIS[7]], setup="many")
    add("read many slots", "slot_readv", SIS[7], [], [(0, 5), (2, 2)], setup="many")
    add("read many slots, named", "slot_readv", SIS[7], many, [(0, 5)], setup="many")
    add(
        "write many slots",
        "slot_testv_and_readv_and_writev",
        SIS[7], SECRETS, {n: ([(0, 1, b"")], [(0, seq(n))], None) for n in many[::2]}, [(0, 2**20)],
        setup="many", cost="bought",
    )
    add("lease none", "add_lease", SIS[7], R2, C1)
    add("lease", "add_lease", SIS[1], R2, C1, setup="shares", cost="shares")
    add("buckets", "get_buckets", SIS[1], setup="shares")
    add("buckets none", "get_buckets", SIS[6])
    for reason in (b"", b"broken", "\u20ac".encode("utf-8"), b"r" * 1000):
        for t in (b"immutable", b"mutable"):
            add("advise %r" % reason[:3], "advise_corrupt_share", t, SIS[1], 0, reason, setup="shares")
    vectors = {
        "empty": {},
        "test only": {0: ([(0, 1, b"x")], [], None)},
        "one": {0: ([], [(0, b"abc")], None)},
        "at": {5: ([(0, 1, b"")], [(0, b"abc"), (700, b"d" * 500)], None)},
        "31 writes": {1: ([], [(i * 7, b"%07d" % i) for i in range(31)], None)},
        "200 tests": {1: ([(i, 1, b"") for i in range(200)], [(0, b"z")], None)},
        "many shares": {n: ([(0, 1, b"")], [(0, b"s%d" % n)], None) for n in range(b["shares"])},
        "large": {0: ([], [(0, seq(b["passes"] * 1000))], None)},
        "empty data": {2: ([], [(0, b"")], None)},
        "new length": {2: ([], [(0, b"1234")], 3)},
    }
    reads = {
        "no reads": [],
        "reads": [(0, 10), (5, 0), (2**40, 5), (3, 2**31 - 1)],
        "40 reads": [(i, 3) for i in range(40)],
    }
    for (vn, tw), (rn, rv) in itertools.product(vectors.items(), reads.items()):
        cost = sum(
            ceil(max(o + len(d) for o, d in data), 1000) for _, data, _ in tw.values() if data
        )
        ok = all(
            all(s == b"" for _, _, s in t) for t, _, _ in tw.values()
        )
        add(
            "write %s, %s" % (vn, rn),
            "slot_testv_and_readv_and_writev",
            SIS[5], SECRETS, tw, rv,
            cost=cost,
            # a new length is always refused
            refused=any(e is not None for _, _, e in tw.values()),
            written=tw if ok else {},
        )
    for shares in ([], [0], [2, 1], list(range(40)), [255, 0]):
        for rn, rv in reads.items():
            add("read %r %s" % (shares[:2], rn), "slot_readv", SIS[2], shares, rv, setup="shares")
    return out


def fill(srv):
    """
    Shares of all kinds, some very large (of holes).
    """
    def put(kind, si, n, size, leases):
        path = srv.path(si, n)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        version = 2 if kind == "immutable" else sorted(V01.MAGIC)[-1]
        V01.WRITERS[kind](path, version, size, leases, 0)

    put("immutable", SIS[1], 0, 10, [T0 + 5])
    put("immutable", SIS[1], 255, 2501, [T0 + 5, T0 + 9])
    put("mutable", SIS[2], 0, 0, [])
    put("mutable", SIS[2], 1, 20, [T0 + 1])
    put("mutable", SIS[2], 2, 1001, [2**32 - 1])
    put("immutable", SIS[3], 1, 2**31, [T0])
    put("immutable", SIS[3], 2, 2**32 - 1, [2**31])
    put("immutable", SIS[3], 3, 2**33 + 1, [2**32 - 1])
    put("mutable", SIS[4], 7, 2**31 - 1, [1])
    put("mutable", SIS[4], 8, 2**40 + 1, [T0])
    return {
        SIS[1]: {0: (10, T0 + 5), 255: (2501, T0 + 9)},
        SIS[2]: {0: (0, 0), 1: (20, T0 + 1), 2: (1001, 2**32 - 1)},
        SIS[3]: {1: (2**31, T0), 2: (2**32 - 1, 2**31), 3: (2**33 + 1, 2**32 - 1)},
        SIS[4]: {7: (2**31 - 1, 1), 8: (2**40 + 1, T0)},
    }


def fill_many(srv, n):
    """
    As many shares of one immutable and one mutable file as there can be.
    """
    have = {SIS[6]: {}, SIS[7]: {}, SIS[1]: {0: (10, T0 + 5)}}
    for kind, si, num, size in (
        [("immutable", SIS[6], i, 1 + i) for i in range(n)]
        + [("mutable", SIS[7], i, i) for i in range(n)]
        + [("immutable", SIS[1], 0, 10)]
    ):
        path = srv.path(si, num)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        version = 2 if kind == "immutable" else sorted(V01.MAGIC)[-1]
        when = T0 + 5 if kind == "immutable" else T0 - 5
        V01.WRITERS[kind](path, version, size, [when], 0)
        have[si][num] = (size, when)
    return have


def make_calls(b):
    table = call_table(b)
    tokens("good", b["passes"] + 8)

    def scenario(ch):
        name, method, args, kw = ch.pick(table, "call")
        pieces = ch.pick(["whole", "pieces"], "delivery")
        srv = Server(1000)
        srv.orig.get_available_space = lambda: 10**15
        cl = Client(srv, b["passes"] + 8)
        try:
            have = {}
            if kw.get("setup") == "shares":
                have = fill(srv)
            elif kw.get("setup") == "many":
                have = fill_many(srv, b["shares"])
            cost = kw.get("cost", 0)
            if cost == "bought":
                # the leases are over; the length does not change for tests which fail
                cost = sum(ceil(s, 1000) for n, (s, _) in have[args[0]].items() if n % 2 == 0)
            if cost == "shares":
                cost = sum(ceil(s, 1000) for s, _ in have[args[1 - 1]].values())
            d = getattr(cl.client, method)(*args)
            w = cl.wire
            wire.settle()
            while w.alive and (w.up.pending() or w.down.pending()):
                for p in (w.up, w.down):
                    n = p.pending()
                    if n:
                        # byte by byte as far as that is affordable
                        step = 1 if n < 3000 else n // 1000
                        w.deliver(p, None if pieces == "whole" else step)
            wire.settle()
            got = zk.result_of(d)
            check(w.alive, "the connection was dropped", call=name)
            check(got[0] != "pending", "a call never ends", call=name)
            paid = [c for c in srv.calls if c[0] == method]
            check(
                len(paid) == 1,
                "the call does not reach the server exactly once",
                call=name,
                calls=[c[0] for c in srv.calls],
                result=repr(got)[:500],
            )
            [(_, sent, kind, value)] = paid
            want = on_wire(method, args, 1000)
            spendable, spent, invalid = cl.books()
            if method in ("allocate_buckets", "add_lease", "slot_testv_and_readv_and_writev"):
                passes, sent = sent[0], sent[1:]
                check(len(passes) == cost, "not the price was sent", call=name, sent=len(passes), price=cost)
                valid = {p for _, p in cl.tokens}
                pres = [p.split(b" ")[0] for p in passes]
                check(
                    len(set(pres)) == len(pres) and set(pres) <= valid,
                    "the passes are not from different tokens of the store",
                )
            else:
                cost = 0
            check(
                plain(sent) == plain(want),
                "the arguments changed on their way to the server",
                call=name,
                got=repr(plain(sent))[:800],
                expected=repr(plain(want))[:800],
            )
            if kw.get("refused"):
                check(kind == "fail" and got[0] == "fail", "a refused call succeeded", call=name)
                cost = 0
            else:
                check(
                    kind == "ok" and got[0] == "ok",
                    "the call failed",
                    call=name,
                    server=repr(value)[:500],
                    client=repr(got[1])[:500],
                )
                check(
                    plain(got[1]) == plain(value),
                    "the result changed on its way to the client",
                    call=name,
                    got=repr(plain(got[1]))[:800],
                    expected=repr(plain(value))[:800],
                )
            check(spendable == len(cl.tokens) - cost, "not the price was spent", call=name, left=spendable)
            check(cl.available() == spendable, "passes are still in use", call=name)
            check(srv.sample("sum") == cost, "the server's record is not the price", call=name)
            if method == "stat_shares":
                stats = [
                    {n: (s.size, s.lease_expiration) for n, s in st.items()} for st in got[1]
                ]
                check(
                    stats == [have.get(si, {}) for si in args[0]],
                    "not the true sizes and expirations arrive",
                    call=name,
                    got=repr(stats)[:500],
                )
            if method == "allocate_buckets":
                nums, size = args[3], args[4]
                check(set(got[1][1]) == nums, "not all shares can be written", call=name)
                if len(nums) < 4 and size <= 2**20:
                    for n, bw in got[1][1].items():
                        ds = [bw.callRemote("write", 0, seq(size))] if size else []
                        ds.append(bw.callRemote("close"))
                        w.pump()
                        results = [zk.result_of(x) for x in ds]
                        check(
                            results == [("ok", None)] * len(ds),
                            "a share cannot be written",
                            call=name,
                            results=repr(results),
                        )
                    for n in nums:
                        check(srv.share(SI, n) == (seq(size), 1), "a share is not what was sent")
                    d = cl.client.get_buckets(SI)
                    w.pump()
                    readers = zk.result_of(d)[1]
                    check(set(readers) == nums, "the shares cannot be read")
                    for n in nums:
                        d = readers[n].callRemote("read", 0, size + 5)
                        w.pump()
                        check(zk.result_of(d) == ("ok", seq(size)), "not the share is read")
            if kw.get("written"):
                for n, (_, data, e) in kw["written"].items():
                    if e is not None or not data:
                        check(srv.share(SIS[5], n) is None, "an unexpected share")
                        continue
                    end = max(o + len(x) for o, x in data)
                    image = bytearray(end)
                    for o, x in data:
                        image[o : o + len(x)] = x
                    check(
                        srv.share(SIS[5], n) == (bytes(image), 1),
                        "a share is not what was written",
                        call=name,
                        share=n,
                    )
            return method
        finally:
            cl.close()
            srv.close()

    return scenario


# --------------------------------------------------------------- rejections


def make_rejections(b):
    """
    The store holds tokens which the server does not accept, anywhere.
    """
    small = [(n, bad) for n in b["small"] for k in range(n + 3) for bad in itertools.combinations(range(n + 2), k)]
    large = [(n, bad(n)) for n in b["large"] for bad in (
        lambda n: range(n),
        lambda n: range(0, n, 2),
        lambda n: range(n - 1, n),
        lambda n: range(n // 2, n),
        lambda n: range(0, n, 37),
    )]

    tokens("good", 8)
    tokens("foreign", 8)

    def scenario(ch):
        n, bad = ch.pick(small + large, "bad tokens")
        op = ch.pick(["allocate", "lease", "write"] if n < 50 else ["allocate"], "operation")
        enough = ch.pick([True, False], "enough good tokens")
        bad = set(bad)
        srv = Server(10)
        cl = Client(srv, n + (2 if enough else -1), first_bad=bad)
        good = {p for _, p in tokens("good", n + 2)}
        try:
            if op == "lease":
                si = SIS[1]
                os.makedirs(os.path.dirname(srv.path(si, 0)))
                V01.immutable(srv.path(si, 0), 2, 10 * n, [T0 + 1], 0)
                d = cl.client.add_lease(si, R2, C1)
            elif op == "write":
                d = cl.client.slot_testv_and_readv_and_writev(
                    SIS[5], SECRETS, {0: ([], [(0, b"x" * 10 * n)], None)}, []
                )
            else:
                d = cl.client.allocate_buckets(SI, R1, C1, {0}, 10 * n, Referenceable())
            wire.settle()
            answers = 0
            while cl.wire.alive and (cl.wire.up.pending() or cl.wire.down.pending()):
                cl.wire.pump()
                answers += 1
                check(answers < MAX_ANSWERS, "the call goes on for ever")
            got = zk.result_of(d)
            spendable, spent, invalid = cl.books()
            check(got[0] != "pending", "a call never ends")
            check(cl.available() == spendable, "tokens are still in use after a call")
            valid = [p for p in srv.ledger.spent for p in p[1]]
            paid_calls = [
                c
                for c in srv.calls
                if c[0] in ("allocate_buckets", "add_lease", "slot_testv_and_readv_and_writev")
            ]
            seen = {p.split(b" ")[0] for c in paid_calls for p in c[1][0]}
            check(set(invalid) == seen - good, "not the rejected tokens are set aside",
                  set_aside=len(invalid), rejected=len(seen - good))
            if enough:
                check(got[0] == "ok", "a call fails in spite of enough good tokens", error=repr(got))
                check(sorted(valid) == spent and len(spent) == n and set(spent) <= good,
                      "not the price was spent", spent=len(spent), price=n)
                last = [p.split(b" ")[0] for p in paid_calls[-1][1][0]]
                check(sorted(last) == spent, "other tokens were spent than were accepted")
            else:
                check(
                    got[0] == "fail" and isinstance(got[1], NotEnoughTokens),
                    "a call without enough good tokens does not say so",
                    result=repr(got),
                )
                check(not spent and not valid, "tokens were spent by a call which failed")
            check(
                spendable == len(cl.tokens) - len(spent) - len(invalid),
                "tokens were lost",
                spendable=spendable,
            )
            check(len(paid_calls) <= 2 + len(bad), "more attempts than bad tokens", attempts=len(paid_calls))
            return (op, got[0], min(len(paid_calls), 4))
        finally:
            cl.close()
            srv.close()

    return scenario


# -------------------------------------------------------------- lost connections

DATA = {n: b"share-%d-" % n * 4 for n in range(8)}


class User:
    """
    Somebody who uploads shares, writes a slot and renews a lease, beginning each again
    after the connection was lost.
    """

    def __init__(self, name, cl, steps, piped):
        self.name = name
        self.cl = cl
        self.piped = piped
        self.price = 0
        self.done = False
        self.error = None
        self.waiting = None
        d = Deferred.fromCoroutine(self.run(steps))
        d.addCallbacks(self.finished, self.failed)

    def finished(self, _):
        self.done = True

    def failed(self, f):
        self.error = f.value

    async def run(self, steps):
        for step in steps:
            while True:
                try:
                    await getattr(self, step[0])(*step[1:])
                except LOST:
                    self.waiting = Deferred()
                    await self.waiting
                else:
                    break

    def reconnect(self):
        self.cl.connect()
        d, self.waiting = self.waiting, None
        d.callback(None)
        wire.settle()

    async def upload(self, si, nums):
        size = len(DATA[0])
        already, writers = await self.cl.client.allocate_buckets(
            si, R1, C1, set(nums), size, Referenceable()
        )
        self.price += ceil(size, self.cl.server.pv) * len(writers)
        waiting = []
        for n in sorted(writers):
            data = DATA[n]
            calls = [("write", 0, data[:9]), ("write", 9, data[9:]), ("close",)]
            for c in calls:
                d = writers[n].callRemote(*c)
                if self.piped:
                    waiting.append(d)
                else:
                    await d
        from twisted.internet.defer import DeferredList

        for ok, v in await DeferredList(waiting, consumeErrors=True):
            if not ok:
                v.raiseException()

    async def write(self, si, secrets, image):
        ok, _ = await self.cl.client.slot_testv_and_readv_and_writev(
            si, secrets, {0: ([], [(0, image)], None)}, [(0, 5)]
        )
        check(ok is True, "a write without a test fails")
        # the price when the server saw it is in its own record
        self.price += self.cl.server.sample("sum") - self.sum_before

    async def renew(self, si):
        await self.cl.client.add_lease(si, R2, C1)
        self.price += self.cl.server.sample("sum") - self.sum_before

    sum_before = 0


def cuts(n):
    return sorted({0, 1, n // 2, n - 1, n})


def make_disconnects(b):
    def scenario(ch):
        steps = [
            [("upload", SIS[0], (0, 1))],
            [("upload", SIS[0], (2,)), ("write", SIS[5], SECRETS, b"w" * 25), ("renew", SIS[0])],
            [("write", SIS[5], SECRETS, b"w" * 25), ("write", SIS[5], SECRETS, b"v" * 31)],
        ][ch.choose(3, "session")]
        srv = Server(10)
        cl = Client(srv, 60)
        budget = b["cuts"]
        try:
            user = User("A", cl, steps, False)
            turns = 0
            while not user.done:
                wire.settle()
                check(user.error is None, "a call fails", error=repr(user.error))
                w = cl.wire
                if not w.alive:
                    # nothing may be left of what the connection was for
                    check(srv.orig.allocated_size() == 0, "space stays reserved after the connection was lost")
                    check(not srv.incoming(), "an upload stays after its connection was lost", left=srv.incoming())
                    check(
                        cl.available() == cl.books()[0],
                        "passes stay in use after the connection was lost",
                    )
                    check(user.waiting is not None, "a call does not end when the connection is lost")
                    user.reconnect()
                    continue
                pending = [p for p in (w.up, w.down) if p.pending()]
                if user.done:
                    break
                check(pending, "a call never ends")
                p = pending[0] if len(pending) == 1 else ch.pick(pending, "pipe")
                n = p.pending()
                user.sum_before = srv.sample("sum")
                cut = None
                if budget:
                    cut = ch.pick(["-"] + cuts(n), "%s cut" % ("up" if p is w.up else "down"))
                if cut is None or cut == "-":
                    before = srv.sample("sum")
                    if p is w.down:
                        user.sum_before = last_sum[0]
                    else:
                        last_sum = [before]
                    w.deliver(p)
                else:
                    budget -= 1
                    if p is w.down:
                        user.sum_before = last_sum[0]
                    else:
                        last_sum = [srv.sample("sum")]
                    w.deliver(p, cut)
                    wire.settle()
                    if not user.done:
                        w.lose()
                audit(srv, [cl], [user])
                turns += 1
                check(turns < 500, "the session does not end")
            final(srv, [user], steps)
            audit(srv, [cl], [user])
            check(cl.available() == cl.books()[0], "passes stay in use")
            return (len(steps), budget)
        finally:
            cl.close()
            srv.close()

    return scenario


def audit(srv, clients, users):
    """What must hold at all times."""
    for n in range(8):
        s = srv.share(SIS[0], n)
        if s is not None:
            check(s[0] == DATA[n], "a stored share is not what was uploaded", share=n, got=s[0])
            check(s[1] >= 1, "a stored share has no lease", share=n)
    s = srv.share(SIS[5], 0)
    if s is not None:
        check(s[0] in (b"", b"w" * 25, b"v" * 31), "a slot holds something between two writes", got=s[0])
    accepted = {p for _, x in srv.ledger.spent for p in x}
    for cl, user in zip(clients, users):
        spendable, spent, invalid = cl.books()
        check(not invalid, "good tokens were set aside as invalid")
        check(set(spent) <= accepted, "tokens are booked as spent which the server did not accept")
        check(
            len(spent) == user.price,
            "not what the accepted calls cost is booked as spent",
            spent=len(spent),
            cost=user.price,
        )
        check(spendable + len(spent) == len(cl.tokens), "tokens were lost")


def final(srv, users, steps):
    for step in steps:
        if step[0] == "upload":
            for n in step[2]:
                check(srv.share(step[1], n) is not None, "an uploaded share is not there", share=n)
        elif step[0] == "renew":
            for n in range(8):
                s = srv.share(step[1], n)
                check(s is None or s[1] == 2, "a renewed lease is not there", share=n)
    writes = [s for s in steps if s[0] == "write"]
    if writes:
        check(srv.share(SIS[5], 0) == (writes[-1][3], 1), "a written slot is not there")
    check(srv.orig.allocated_size() == 0 and not srv.incoming(), "an upload is left over")


def make_two(b):
    """
    Two clients upload overlapping shares of the same index at the same time.
    """

    tokens("good", 40)

    def scenario(ch):
        srv = Server(10)
        plans = [
            [("upload", SIS[0], (0, 1))],
            [("upload", SIS[0], (1, 2))],
        ]
        clients = [Client(srv, 40) for _ in plans]
        budget = b["cuts"]
        try:
            users = [User("AB"[i], c, p, b["piped"]) for i, (c, p) in enumerate(zip(clients, plans))]
            turns = 0
            while not all(u.done for u in users):
                wire.settle()
                events = []
                for u in users:
                    check(u.error is None, "a call fails", error=repr(u.error))
                    if u.done:
                        continue
                    w = u.cl.wire
                    if not w.alive:
                        check(u.waiting is not None, "a call does not end when the connection is lost")
                        events.append((u, "connect", None))
                        continue
                    for which in ("up", "down"):
                        n = getattr(w, which).pending()
                        if n:
                            events.append((u, which, None))
                            if budget:
                                events += [(u, which, c) for c in cuts(n)]
                check(events, "a call never ends")
                u, what, cut = ch.pick(
                    [_Event(*e) for e in events], "event"
                ).parts
                if what == "connect":
                    u.reconnect()
                else:
                    w = u.cl.wire
                    w.deliver(getattr(w, what), cut)
                    if cut is not None:
                        budget -= 1
                        w.lose()
                audit(srv, clients, users)
                dead = [x for x in users if not x.cl.wire.alive]
                # what is in the making belongs to somebody who is still there
                if len(dead) == len(users):
                    check(not srv.incoming() and srv.orig.allocated_size() == 0, "an upload stays after its connection was lost")
                turns += 1
                check(turns < 500, "the session does not end")
                ch.visit(lambda: state(srv, users, budget))
            check(not srv.incoming() and srv.orig.allocated_size() == 0, "an upload is left over")
            # one who got neither a writer nor the share leaves it to the other
            for n in range(3):
                check(srv.share(SIS[0], n) is not None, "a share which somebody had to upload is not there", share=n)
            for c in clients:
                check(c.available() == c.books()[0], "passes stay in use")
            return tuple(u.price for u in users)
        finally:
            for c in clients:
                c.close()
            srv.close()

    return scenario


class _Event:
    def __init__(self, user, what, cut):
        self.parts = (user, what, cut)

    def __repr__(self):
        u, what, cut = self.parts
        return "%s %s%s" % (u.name, what, "" if cut is None else ", lost after %d" % cut)


def state(srv, users, budget):
    files = []
    for d, dirs, names in os.walk(srv.orig.sharedir):
        for n in sorted(names):
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                files.append((p[len(srv.dir) :], f.read()))
    def pid(u):
        w = u.cl.wire
        return (
            u.done,
            u.price,
            u.waiting is not None,
            w.alive,
            # ids of requests and references grow with each attempt, but attempts are
            # part of the budget; passes are those of the store, in its order
            b"".join(w.up.buffer),
            b"".join(w.down.buffer),
            u.cl.books()[:2],
        )
    return (sorted(files), [pid(u) for u in users], budget, len(srv.calls))


# ----------------------------------------------------------------- hostile calls


def hostile_table():
    A, L, S = "allocate_buckets", "add_lease", "slot_testv_and_readv_and_writev"
    canary = Referenceable()
    good = {
        A: [[], SIS[3], R1, C1, {0}, 0, canary],
        L: [[], SIS[3], R1, C1],
        S: [[], SIS[5], SECRETS, {0: ([], [(0, b"")], None)}, [(0, 1)]],
        "stat_shares": [[SIS[1]]],
        "share_sizes": [SIS[1], None],
        "get_buckets": [SIS[1]],
        "slot_readv": [SIS[2], [0], [(0, 1)]],
        "advise_corrupt_share": [b"immutable", SIS[1], 0, b"reason"],
        "get_version": [],
    }
    kinds = {
        "passes": [None, 3, b"x" * 177, {}, [b""], [b"x" * 176], [b"x" * 178], ["x" * 177], [None], [[]], [b"x" * 177], [b" " * 177], [b"=" * 88 + b" " + b"=" * 88]],
        "si": [None, 5, b"", b"x" * 15, b"x" * 17, "x" * 16, [b"x" * 16], b"../../../../../.."],
        "secret": [None, 1, b"", b"x" * 31, b"x" * 33, "s" * 32],
        "nums": [None, 0, [0], {-1}, {"0"}, {b"../x"}, {0, None}, set(range(257))],
        "size": [None, -1, -100, -(2**63), 2**64, "5", 1.5, [], 1, 11],
        "canary": [None, 0, b"x", [], {}],
        "secrets": [None, (WE, R1), (WE, R1, C1, C1), [WE, R1, C1], (WE, R1, b"x"), (WE[:31], R1, C1)],
        "tw": [
            None, [], 3, {"0": ([], [], None)}, {b"../x": ([], [(0, b"")], None)},
            {-1: ([], [(0, b"")], None)},
            {0: ([], [(-1, b"")], None)}, {0: ([], [(-50, b"x" * 50)], None)},
            {0: ([], [(0, "text")], None)}, {0: ([], [(0, None)], None)}, {0: ([], [None], None)},
            {0: ([], [(2**64, b"x")], None)}, {0: ([], [], -1)}, {0: ([], [(0, b"")], 0)},
            {0: ([], [], 2**63)}, {0: ([], None, None)}, {0: ([(0, 1, b"ne", b"")], [(0, b"")], None)},
            {0: ([(0, 1, b"gt", b"x")], [(0, b"")], None)},
            {0: ([(0, 1, b"")], [(0, b"")], None)},
            {0: ([], [(0, b"x")], None)}, {0: ([], [(0, b"x" * 11)], None)},
            {0: ([], [(0, b""), (9, b"x")], None)},
            {0: ([], [(0, b"")], None), 1: ([], [(-9, b"x")], None)},
        ],
        "rv": [None, 1, [(0,)], [("0", 1)], [(0, 1, 2)]],
        "sis": [None, SIS[1], [SIS[1], b"short"], [None], ["x" * 16], {}],
        "shares": [None, {0}, [-1], ["0"], [b"../x"], 0],
        "sharenums": [0, b"x", [None], "0", {}, [{}]],
        "text": [None, 1, "text"],
    }
    shape = {
        A: ["passes", "si", "secret", "secret", "nums", "size", "canary"],
        L: ["passes", "si", "secret", "secret"],
        S: ["passes", "si", "secrets", "tw", "rv"],
        "stat_shares": ["sis"],
        "share_sizes": ["si", "sharenums"],
        "get_buckets": ["si"],
        "slot_readv": ["si", "shares", "rv"],
        "advise_corrupt_share": ["text", "si", "size", "text"],
        "get_version": [],
    }
    priced = {
        A: [SIS[3], R1, C1, {0}, 11, canary],
        L: [SIS[1], R2, C1],
        S: [SIS[5], SECRETS, {0: ([], [(0, b"x")], None)}, []],
    }
    out = []
    for name, args in good.items():
        for i, kind in enumerate(shape[name]):
            for bad in kinds[kind]:
                a = list(args)
                if kind == "passes":
                    # something which has a price
                    a[1:] = priced[name]
                a[i] = bad
                out.append((name, a))
        if args:
            out.append((name, args[:-1]))
        out.append((name, args + [1]))
        if name in (A, L, S):
            # as with a server which asks for nothing
            out.append((name, args[1:]))
    for name in (
        "slot_read", "remote_get_version", "_original", "callRemote", "doRemoteCall", "mark_as_spent",
        "_clear_metrics", "set_implementation", "bucket_counter", "get_stats", "", "processUniqueID",
        "get_share_sizes", "renew_lease", "cancel_lease", "getReferenceByName",
    ):
        for a in ([], [SIS[1]]):
            out.append((name, a))
    return out


READS = ("stat_shares", "share_sizes", "get_buckets", "slot_readv", "get_version")


def make_hostile(b):
    table = hostile_table()

    def scenario(ch):
        name, args = table[ch.choose(len(table), "call")]
        named = ch.pick([False, True], "schema known to the caller")
        ch.note("%s%r" % (name, args))
        srv = Server(10)
        honest = Client(srv, 40)
        try:
            fill_small(srv)
            wicked = wire.Wire()
            ref = wicked.reference(srv.server, named)
            before = srv.tree()
            try:
                d = ref.callRemote(name, *args)
            except Exception as e:
                # cannot even be put on the wire
                return "not sent"
            wicked.pump()
            got = zk.result_of(d)
            after = srv.tree()
            check(
                after == before,
                "a call which is not a proper one has an effect",
                method=name,
                args=repr(args)[:300],
                result=repr(got)[:300],
                files=sorted(set(after[0]) ^ set(before[0])),
                changed=[k for k in before[0] if k in after[0] and before[0][k] != after[0][k]],
                books=(before[1:], after[1:]),
            )
            # whatever it did to its own connection, everybody else is served, also
            # with what was named by the call
            honest.wire.pump()
            for nums in ((0, 1),):
                user = User("H", honest, [("upload", SIS[3], nums)], True)
                honest.wire.pump()
                check(
                    user.done and srv.share(SIS[3], 0) == (DATA[0], 1) and srv.share(SIS[3], 1) == (DATA[1], 1),
                    "after a call which is not a proper one others are not served",
                    method=name,
                    args=repr(args)[:300],
                    error=repr(user.error),
                )
            if wicked.alive:
                wicked.lose()
            return (name, got[0], type(got[1]).__name__ if len(got) > 1 else "")
        finally:
            honest.close()
            srv.close()

    return scenario


def fill_small(srv):
    for kind, si, n, size in (("immutable", SIS[1], 0, 10), ("mutable", SIS[2], 0, 20)):
        path = srv.path(si, n)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        V01.WRITERS[kind](path, 2 if kind == "immutable" else sorted(V01.MAGIC)[-1], size, [T0 + 10**6], 0)


CHECK = Check(
    "W01",
    "model_checking",
    "every storage operation in every listed form over a real Foolscap connection, whole and "
    "in pieces; all sets of unacceptable tokens among the first; every session with the "
    "connection lost before, within and after each message in each direction; two clients in "
    "all interleavings; every listed improper argument in every position of every method",
    [
        "the network delivers bytes in order or loses the connection",
        "both ends learn of a lost connection",
        "Foolscap's negotiation and TLS are not part of the harness",
    ],
    [
        Scenario(
            "calls",
            make_calls,
            dict(shares=256, passes=4200, indexes=2000),
            dict(shares=256, passes=20000, indexes=20000),
        ),
        Scenario(
            "rejections",
            make_rejections,
            dict(small=[1, 2, 3], large=[300]),
            dict(small=[1, 2, 3, 4, 5], large=[100, 300, 1000]),
        ),
        Scenario("disconnects", make_disconnects, dict(cuts=1), dict(cuts=2)),
        Scenario("two-clients", make_two, dict(cuts=1, piped=True), dict(cuts=2, piped=False)),
        Scenario("hostile", make_hostile),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
