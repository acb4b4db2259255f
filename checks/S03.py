"""
S03: the storage server gives nothing without payment.
"""

import os
import shutil

from allmydata.interfaces import NoSpace
from allmydata.storage.server import StorageServer
from allmydata.storage.shares import get_share_file
from allmydata.storage.common import storage_index_to_dir
from base64 import b64encode
from challenge_bypass_ristretto import (
    BatchDLEQProof,
    PublicKey,
    RandomToken,
    random_signing_key,
)
from prometheus_client import CollectorRegistry
from twisted.internet.task import Clock
from zope.interface import implementer

from _zkapauthorizer._storage_server import (
    NewLengthRejected,
    ZKAPAuthorizerStorageServer,
)
from _zkapauthorizer.model import Pass
from _zkapauthorizer.server.spending import ISpender
from _zkapauthorizer.storage_common import MorePassesRequired

from mc import zk
from mc.core import Violation, check
from mc.runner import Check, Scenario

PV = 10
LEASE = 31 * 24 * 3600
DAY = 24 * 3600
T0 = 1700000000

SI_I = b"immutable-index0"
SI_M = b"mutable-index-00"
ALLOC, LEASEOP, WRITE = (
    "allocate_buckets",
    "add_lease",
    "slot_testv_and_readv_and_writev",
)


def ceil(n):
    return -(-n // PV)


def message(op, si):
    return b"%s %s" % (op.encode(), b64encode(si))


_pools = {}


def pool():
    """Real keys and passes, made once per process."""
    if os.getpid() in _pools:
        return _pools[os.getpid()]
    key = random_signing_key()
    other = random_signing_key()
    p = dict(key=key, good={}, foreign={})

    def make(k, msgs, count):
        rts = [RandomToken.create() for _ in range(count)]
        blinded = [t.blind() for t in rts]
        sigs = [k.sign(x) for x in blinded]
        proof = BatchDLEQProof.create(k, blinded, sigs)
        un = proof.invalid_or_unblind(rts, blinded, sigs, PublicKey.from_signing_key(k))
        out = {}
        for m in msgs:
            out[m] = [
                Pass(
                    u.preimage().encode_base64(),
                    u.derive_verification_key_sha512().sign_sha512(m).encode_base64(),
                )
                for u in un
            ]
        return out

    msgs = [
        message(op, x)
        for op in (ALLOC, LEASEOP, WRITE)
        for si in (SI_I, SI_M)
        for x in (si, si[:-1] + b"~", b"~" + si[1:])
    ]
    p["good"] = make(key, msgs, 12)
    p["foreign"] = make(other, msgs, 2)
    _pools[os.getpid()] = p
    return p


@implementer(ISpender)
class Ledger:
    def __init__(self):
        self.spent = []

    def mark_as_spent(self, public_key, passes):
        self.spent.append((public_key.encode_base64(), list(passes)))


class Canary:
    def __init__(self):
        self.marks = {}
        self.n = 0

    def notifyOnDisconnect(self, f, *a, **kw):
        self.n += 1
        self.marks[self.n] = (f, a, kw)
        return self.n

    def dontNotifyOnDisconnect(self, m):
        self.marks.pop(m, None)

    def disconnect(self):
        marks, self.marks = self.marks, {}
        for f, a, kw in marks.values():
            f(*a, **kw)


R1, R2 = b"r" * 32, b"s" * 32
C1, C2 = b"c" * 32, b"d" * 32
WE = b"w" * 32


class World:
    def __init__(self):
        self.dir = zk.fresh_path("storage")
        self.clock = Clock()
        self.clock.advance(T0)
        self.orig = StorageServer(self.dir, b"n" * 20, clock=self.clock)
        self.registry = CollectorRegistry()
        self.ledger = Ledger()
        self.pool = pool()
        self.server = ZKAPAuthorizerStorageServer(
            self.orig,
            pass_value=PV,
            signing_key=self.pool["key"],
            spender=self.ledger,
            registry=self.registry,
            clock=self.clock,
        )
        self.canary = Canary()
        # the model
        self.shares = {SI_I: {}, SI_M: {}}  # si -> n -> [data, {secret: expiry}]
        self.incoming = {}  # (si, n) -> (size, secret, expiry, writer, born)
        self.paid = [0, 0]  # calls, passes

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    @property
    def now(self):
        return int(self.clock.seconds())

    # -------------------------------------------------------------- payment

    def passes(self, op, si, need, how):
        """
        :return: (encoded passes, indices of invalid ones, preimages of valid ones)
        """
        good = self.pool["good"][message(op, si)]
        kind, n, at = how
        assert need + n < len(good), (need, n)
        items = [(p, True) for p in good[: max(0, need + n)]]
        if kind != "valid":
            spare = good[-1]
            if kind == "foreign-key":
                bad = self.pool["foreign"][message(op, si)][0]
            elif kind == "other-index":
                bad = self.pool["good"][message(op, SI_M if si == SI_I else SI_I)][-1]
            elif kind == "near-index-end":
                bad = self.pool["good"][message(op, si[:-1] + b"~")][-1]
            elif kind == "near-index-start":
                bad = self.pool["good"][message(op, b"~" + si[1:])][-1]
            elif kind == "other-operation":
                bad = self.pool["good"][message(LEASEOP if op != LEASEOP else ALLOC, si)][-1]
            elif kind == "swapped":
                bad = Pass(spare.preimage, good[-2].signature)
            elif kind == "not-a-point":
                bad = Pass(b64encode(b"\xff" * 64), spare.signature)
            elif kind == "zero":
                bad = Pass(b64encode(b"\0" * 64), b64encode(b"\0" * 64))
            items.insert(min(at, len(items)), (bad, False))
        enc = [p.pass_bytes for p, _ in items]
        failed = frozenset(i for i, (_, ok) in enumerate(items) if not ok)
        valid = [p.preimage for p, ok in items if ok]
        return enc, failed, valid

    # -------------------------------------------------------------- observation

    def real(self):
        out = {}
        for si in (SI_I, SI_M):
            d = os.path.join(self.orig.sharedir, storage_index_to_dir(si))
            out[si] = {}
            if not os.path.isdir(d):
                continue
            for name in os.listdir(d):
                path = os.path.join(d, name)
                sf = get_share_file(path)
                leases = sorted(
                    l.get_expiration_time() for l in sf.get_leases()
                )
                if si == SI_M:
                    [data] = sf.readv([(0, 10000)])
                else:
                    data = sf.read_share_data(0, 10000)
                out[si][int(name)] = (data, leases)
        return out

    def observe(self):
        real = self.real()
        for si in (SI_I, SI_M):
            want = {
                n: (data, sorted(leases.values()))
                for n, (data, leases) in self.shares[si].items()
            }
            check(
                set(real[si]) == set(want),
                "stored shares are not those which were paid for",
                got=sorted(real[si]),
                expected=sorted(want),
            )
            for n in want:
                check(
                    real[si][n][0] == want[n][0],
                    "a share does not hold the data written by accepted calls",
                    share=n,
                    got=real[si][n][0],
                    expected=want[n][0],
                )
                check(
                    real[si][n][1] == want[n][1],
                    "a share's leases are not those which were paid for",
                    share=n,
                    now=self.now,
                    got=[e - self.now for e in real[si][n][1]],
                    expected=[e - self.now for e in want[n][1]],
                )
            [stats] = self.server.remote_stat_shares([si])
            check(
                {n: (s.size, s.lease_expiration) for n, s in stats.items()}
                == {
                    n: (len(d), max(l.values()) if l else 0)
                    for n, (d, l) in self.shares[si].items()
                },
                "reported size or lease expiration is wrong",
                got={n: (s.size, s.lease_expiration) for n, s in stats.items()},
            )
            check(
                self.server.remote_share_sizes(si, None)
                == {n: len(d) for n, (d, l) in self.shares[si].items()},
                "reported share sizes are wrong",
            )
        g = lambda s: self.registry.get_sample_value(
            "zkapauthorizer_server_spending_successes_" + s
        )
        check(
            [g("count"), g("sum")] == self.paid,
            "spending metrics differ from the accepted calls",
            got=[g("count"), g("sum")],
            expected=self.paid,
        )

    def snapshot(self):
        files = []
        for base, _, names in sorted(os.walk(self.orig.sharedir)):
            for n in sorted(names):
                with open(os.path.join(base, n), "rb") as f:
                    files.append((os.path.join(base, n)[len(self.dir):], f.read()))
        return files, list(self.ledger.spent), list(self.paid)

    def key(self):
        return (
            [
                [
                    (n, d, sorted((s, e - self.now) for s, e in l.items()))
                    for n, (d, l) in sorted(self.shares[si].items())
                ]
                for si in (SI_I, SI_M)
            ],
            sorted(
                (k, v[0], v[1], v[2] - self.now, v[4] - self.now)
                for k, v in self.incoming.items()
            ),
            self.orig.readonly_storage,
        )

    # -------------------------------------------------------------- operations

    def refused_or(self, need, enc, failed, valid, f, spent, price):
        """
        Make a paid call.  Returns its result, or None if it was refused.
        """
        before = self.snapshot()
        try:
            r = f(enc)
        except MorePassesRequired as e:
            check(
                len(valid) < need,
                "a call with enough valid passes was refused",
                need=need,
                valid=len(valid),
                error=str(e),
            )
            check(
                (e.valid_count, e.required_count, frozenset(e.signature_check_failed))
                == (len(valid), need, failed),
                "a refusal does not tell the price and the invalid passes",
                got=str(e),
                need=need,
                valid=len(valid),
                failed=sorted(failed),
            )
            check(self.snapshot() == before, "a refused call had an effect")
            return None
        except NewLengthRejected:
            check(self.snapshot() == before, "a rejected call had an effect")
            raise
        except Exception:
            check(
                self.snapshot()[1:] == before[1:],
                "passes were spent by a call which failed",
            )
            raise
        check(
            len(valid) >= need,
            "a call without enough valid passes was accepted",
            need=need,
            valid=len(valid),
            invalid=len(failed),
        )
        exp = spent(r)
        check(
            self.ledger.spent[len(before[1]):]
            == [(PublicKey.from_signing_key(self.pool["key"]).encode_base64(), exp)],
            "the passes recorded as spent are not those which paid for the call",
            got=[len(p) for _, p in self.ledger.spent[len(before[1]):]],
            expected=len(exp),
        )
        self.paid[0] += 1
        self.paid[1] += price(r)
        return r

    def allocate(self, shares, size, how, secret=R1):
        need = ceil(size) * len(shares)
        enc, failed, valid = self.passes(ALLOC, SI_I, need, how)
        existing = set(self.shares[SI_I])
        busy = {n for (si, n) in self.incoming if si == SI_I}
        new = set(shares) - existing - busy
        r = self.refused_or(
            need,
            enc,
            failed,
            valid,
            lambda enc: self.server.remote_allocate_buckets(
                enc, SI_I, secret, C1, set(shares), size, self.canary
            ),
            lambda r: valid[: ceil(size) * len(r[1])],
            lambda r: ceil(size) * len(r[1]),
        )
        if r is None:
            return "refused"
        already, writers = r
        check(
            set(already) == existing
            and (
                set(writers) == new
                # Tahoe-LAFS may do less when there is no space
                or (self.orig.readonly_storage and set(writers) <= new)
            ),
            "an allocation gave other shares than those free and asked for",
            got=(sorted(already), sorted(writers)),
            expected=(sorted(existing), sorted(new)),
        )
        for n, w in writers.items():
            self.incoming[(SI_I, n)] = (size, secret, self.now + LEASE, w, self.now)
        return "accepted"

    def finish(self, k):
        size, secret, expiry, w, _ = self.incoming.pop(k)
        data = bytes(range(65, 65 + size))
        if size:
            w.remote_write(0, data)
        w.remote_close()
        si, n = k
        self.shares[si][n] = [data, {secret: expiry}]

    def disconnect(self):
        self.canary.disconnect()
        self.incoming.clear()

    def add_lease(self, si, how, secret=R1):
        need = sum(ceil(len(d)) for d, _ in self.shares[si].values())
        enc, failed, valid = self.passes(LEASEOP, si, need, how)
        try:
            r = self.refused_or(
                need,
                enc,
                failed,
                valid,
                lambda enc: (self.server.remote_add_lease(enc, si, secret, C1),),
                lambda r: valid,
                lambda r: len(valid),
            )
        except NoSpace:
            check(
                self.orig.readonly_storage
                and any(secret not in l for _, l in self.shares[si].values()),
                "a lease was refused for lack of space",
            )
            return "no space"
        if r is None:
            return "refused"
        for d, leases in self.shares[si].values():
            leases[secret] = max(leases.get(secret, 0), self.now + LEASE)
        return "accepted"

    def write(self, tw, how, secret=R1, enabler=WE, si=SI_M):
        have = self.shares[si]
        active = lambda n: any(e > self.now for e in have[n][1].values())
        need = 0
        for n, (test, data, _) in tw.items():
            if not data:
                continue
            old = len(have[n][0]) if n in have else 0
            new = max([old] + [o + len(s) for o, s in data])
            need += ceil(new) - (ceil(old) if n in have and active(n) else 0)
        enc, failed, valid = self.passes(WRITE, si, need, how)
        wire = {
            n: ([(o, l, b"eq", s) for o, l, s in t], d, e) for n, (t, d, e) in tw.items()
        }
        try:
            r = self.refused_or(
                need,
                enc,
                failed,
                valid,
                lambda enc: self.server.remote_slot_testv_and_readv_and_writev(
                    enc, si, (enabler, secret, C1), wire, [(0, 100)]
                ),
                lambda r: valid,
                lambda r: need,
            )
        except NewLengthRejected:
            check(
                any(e is not None for _, _, e in tw.values()),
                "a write without a new length was rejected for its new length",
            )
            return "rejected"
        except Violation:
            raise
        except Exception as e:
            bad = enabler != WE and bool(have)
            check(
                bad or (si == SI_I and have),
                "a valid write failed",
                error=repr(e),
            )
            return "failed"
        check(
            all(e is None for _, _, e in tw.values()),
            "a write with a new length was accepted",
        )
        if r is None:
            return "refused"
        check(
            enabler == WE or not have, "a write with a wrong write enabler was accepted"
        )
        content = lambda n: have[n][0] if n in have else b""
        ok = all(
            content(n)[o : o + l] == s
            for n, (test, _, _) in tw.items()
            for o, l, s in test
        )
        check(r[0] is ok, "the outcome of the test vector is wrong", got=r[0])
        check(
            r[1] == {n: [have[n][0][:100]] for n in have},
            "data read along with the write is wrong",
            got=r[1],
        )
        for n, (_, data, _) in tw.items():
            if not data:
                continue
            if ok:
                entry = have.setdefault(n, [b"", {}])
                buf = bytearray(entry[0])
                for o, s in data:
                    if s or o:
                        if len(buf) < o:
                            buf.extend(b"\0" * (o - len(buf)))
                        buf[o : o + len(s)] = s
                entry[0] = bytes(buf)
            # paid for in full, whether or not the test passed
            if n in have and not active(n):
                have[n][1][secret] = max(
                    have[n][1].get(secret, 0), self.now + LEASE
                )
        return "accepted" if ok else "test failed"

    def advance(self, seconds):
        self.clock.advance(seconds)
        for k, v in list(self.incoming.items()):
            if self.now - v[4] >= 30 * 60:
                del self.incoming[k]


EXACT = ("valid", 0, 0)

W = {
    "10@0": {0: ([], [(0, b"a" * 10)], None)},
    "11@0": {0: ([], [(0, b"b" * 11)], None)},
    "1@20": {0: ([], [(20, b"c")], None)},
    "0@0": {0: ([], [(0, b"")], None)},
    "1@0": {0: ([], [(0, b"d")], None)},
    "two": {0: ([], [(2, b"e")], None), 3: ([], [(0, b"f" * 9), (9, b"ff")], None)},
    "test-ok": {0: ([(0, 1, b"a")], [(0, b"A" * 12)], None)},
    "test-bad": {0: ([(0, 1, b"~")], [(0, b"B" * 31)], None)},
    "test-new": {5: ([(0, 1, b"")], [(0, b"g" * 10)], None)},
    "test-other": {0: ([(0, 1, b"~")], [], None), 6: ([], [(0, b"h" * 10)], None)},
    "test-only": {0: ([(0, 1, b"a")], [], None)},
    "nothing": {},
    "length": {0: ([], [(0, b"i")], 5)},
    "length-0": {0: ([], [], 0)},
}


def make_history(b, World=World):
    """All sequences of correctly paid operations."""

    def scenario(ch):
        w = World()
        try:
            depth = b["depth"]
            while depth:
                menu = ["stop"]
                for shares, size in b["allocate"]:
                    menu.append(("allocate", shares, size, R1))
                for k in sorted(w.incoming)[:2]:
                    menu.append(("finish", k))
                if w.incoming:
                    menu.append(("disconnect",))
                for si, secret in b["lease"]:
                    menu.append(("lease", si, secret))
                for name, secret in b["write"]:
                    menu.append(("write", name, secret))
                for s in b["advance"]:
                    menu.append(("advance", s))
                if b.get("full"):
                    menu.append(("full",))
                ev = ch.pick(menu, "op")
                if ev == "stop":
                    break
                depth -= 1
                if ev[0] == "allocate":
                    out = w.allocate(ev[1], ev[2], EXACT, ev[3])
                elif ev[0] == "finish":
                    out = w.finish(ev[1])
                elif ev[0] == "disconnect":
                    out = w.disconnect()
                elif ev[0] == "lease":
                    out = w.add_lease(ev[1], EXACT, ev[2])
                    if out == "no space":
                        return out
                elif ev[0] == "write":
                    out = w.write(W[ev[1]], EXACT, ev[2])
                elif ev[0] == "advance":
                    out = w.advance(ev[1])
                else:
                    out = None
                    w.orig.readonly_storage = not w.orig.readonly_storage
                if not ch.replaying:
                    w.observe()
                ch.visit(lambda: (w.key(), depth))
            return "shares=%d/%d" % (len(w.shares[SI_I]), len(w.shares[SI_M]))
        finally:
            w.close()

    return scenario


# histories after which every form of payment is tried
SETUPS = {
    "empty": [],
    "immutable": [("allocate", (0, 1), 11), ("finish",), ("finish",)],
    "uploading": [("allocate", (0,), 10)],
    "mutable": [("write", "11@0")],
    "mutable-two": [("write", "two"), ("write", "10@0")],
    "expired": [
        ("allocate", (0,), 11),
        ("finish",),
        ("write", "1@20"),
        ("advance", LEASE + 1),
    ],
    "just-expired": [("write", "11@0"), ("advance", LEASE)],
    "half-expired": [("write", "11@0"), ("advance", 20 * DAY), ("write", "two"), ("advance", 11 * DAY)],
}


def make_payment(b):
    """Every form of payment for every operation after each of some histories."""

    def scenario(ch):
        w = World()
        try:
            setup = ch.pick(sorted(SETUPS), "setup")
            for s in SETUPS[setup]:
                if s[0] == "allocate":
                    w.allocate(s[1], s[2], EXACT)
                elif s[0] == "finish":
                    w.finish(sorted(w.incoming)[0])
                elif s[0] == "write":
                    w.write(W[s[1]], EXACT)
                else:
                    w.advance(s[1])
            ops = [("allocate", sh, sz) for sh, sz in b["allocate"]]
            ops += [("lease", SI_I), ("lease", SI_M)]
            ops += [("write", n) for n in sorted(W)]
            ops += [("write-immutable", "10@0"), ("write-bad-enabler", "11@0")]
            op = ch.pick(ops, "op")
            hows = [("valid", n, 0) for n in (-99, -1, 0, 1)]
            for kind in (
                "foreign-key",
                "other-index",
                "other-operation",
                "swapped",
                "not-a-point",
                "zero",
            ):
                for n in (-1, 0):
                    for at in (0, 1, 99):
                        hows.append((kind, n, at))
            hows += [("near-index-end", -1, 0), ("near-index-start", -1, 0)]
            how = ch.pick(hows, "payment")
            secret = ch.pick([R1, R2], "secret")
            if op[0] == "allocate":
                out = w.allocate(op[1], op[2], how, secret)
            elif op[0] == "lease":
                out = w.add_lease(op[1], how, secret)
            elif op[0] == "write":
                out = w.write(W[op[1]], how, secret)
            elif op[0] == "write-immutable":
                out = w.write(W[op[1]], how, secret, si=SI_I)
                if out == "accepted":
                    return "new slot"
            else:
                out = w.write(W[op[1]], how, secret, enabler=b"x" * 32)
                if out == "accepted":
                    return "new slot"
            w.observe()
            return "%s %s" % (op[0], out)
        finally:
            w.close()

    return scenario


def make_malformed(b):
    """Pass bytes which are not passes are refused without effect."""

    def scenario(ch):
        w = World()
        try:
            good = w.pool["good"][message(ALLOC, SI_I)][0].pass_bytes
            bad = ch.pick(
                [
                    b"",
                    b" ",
                    b"x" * 177,
                    b" " * 177,
                    good[:-1],
                    good + b" ",
                    good.replace(b" ", b"  "),
                    good[:88] + b" " + b"\xff" * 88,
                    good.split(b" ")[1] + b" " + good.split(b" ")[0],
                    good.swapcase(),
                ],
                "pass",
            )
            op = ch.pick([ALLOC, LEASEOP, WRITE], "op")
            if op == LEASEOP:
                w.write(W["1@0"], EXACT)
            before = w.snapshot()
            try:
                if op == ALLOC:
                    w.server.remote_allocate_buckets([bad], SI_I, R1, C1, {0}, 5, w.canary)
                elif op == LEASEOP:
                    w.server.remote_add_lease([bad], SI_M, R1, C1)
                else:
                    w.server.remote_slot_testv_and_readv_and_writev(
                        [bad], SI_M, (WE, R1, C1), {0: ([], [(0, b"x")], None)}, []
                    )
            except Exception as e:
                out = type(e).__name__
            else:
                raise Violation("malformed passes paid for a call", dict(op=op))
            check(w.snapshot() == before, "a refused call had an effect")
            return out
        finally:
            w.close()

    return scenario


CHECK = Check(
    "S03",
    "model_checking",
    "every sequence up to the depth of allocations, uploads finished or cut off, lease "
    "renewals, mutable writes (new, overwriting, extending, empty, with passing and "
    "failing tests), clock advances around lease expiry, on the real server over real "
    "Tahoe-LAFS share files; every form of payment (too few, exact, too many, each kind "
    "of invalid pass at each place) for every operation after each of the listed "
    "histories; after each step shares, data, leases, spending record, metrics and "
    "reported sizes are compared to a reference model with its own price function",
    [
        "double spending is out of scope: the server documents that it does not detect it",
        "Tahoe-LAFS storage server 1.18 as installed",
        "a mutable write whose test fails still costs its price, on both sides",
    ],
    [
        Scenario(
            "payments",
            make_payment,
            dict(allocate=[((0,), 0), ((0,), 10), ((0, 1), 11), ((2, 3, 4), 9)]),
        ),
        Scenario("malformed-passes", make_malformed, {}),
        Scenario(
            "mutable-history",
            make_history,
            dict(
                depth=4,
                allocate=[],
                lease=[(SI_M, R1), (SI_M, R2)],
                write=[(n, R1) for n in sorted(W)] + [("1@0", R2)],
                advance=[10 * DAY, 21 * DAY, LEASE],
            ),
            dict(
                depth=6,
                allocate=[],
                lease=[(SI_M, R1), (SI_M, R2)],
                write=[(n, R1) for n in sorted(W)] + [("1@0", R2), ("two", R2)],
                advance=[10 * DAY, 21 * DAY, LEASE],
            ),
        ),
        Scenario(
            "immutable-history",
            make_history,
            dict(
                depth=5,
                allocate=[((0,), 10), ((0, 1), 11), ((1, 2), 0)],
                lease=[(SI_I, R1), (SI_I, R2)],
                write=[],
                advance=[600, 10 * DAY, LEASE],
                full=True,
            ),
            dict(
                depth=7,
                allocate=[((0,), 10), ((0, 1), 11), ((1, 2), 0)],
                lease=[(SI_I, R1), (SI_I, R2)],
                write=[],
                advance=[600, 10 * DAY, LEASE],
                full=True,
            ),
        ),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
