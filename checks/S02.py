"""
S02: the storage client accounts for every pass it takes, whatever the server
answers and however calls overlap.
"""

import itertools

from foolscap.call import CopiedFailure, FailureSlicer
from foolscap.ipb import DeadReferenceError
from foolscap.referenceable import RemoteReference
from foolscap.tokens import RemoteException
from twisted.internet.defer import CancelledError, Deferred
from twisted.internet.task import Clock
from twisted.python.failure import Failure

from _zkapauthorizer._storage_client import (
    IncorrectStorageServerReference,
    ZKAPAuthorizerStorageClient,
)
from _zkapauthorizer.foolscap import ShareStat
from _zkapauthorizer.model import NotEnoughTokens
from _zkapauthorizer.spending import SpendingController
from _zkapauthorizer.storage_common import MorePassesRequired

from mc import zk
from mc.core import Violation, check
from mc.runner import Check, Scenario

PASS_VALUE = 10
NOW = 1000.0
NAME = "RIPrivacyPassAuthorizedStorageServer.tahoe.privatestorage.io"


def ceil(n):
    return -(-n // PASS_VALUE)


def message_for(method, si):
    from base64 import b64encode

    return b"%s %s" % (method.encode(), b64encode(si))


def wired(exc):
    """The exception a caller sees when ``exc`` is raised over a real connection."""

    class Broker:
        unsafeTracebacks = False

    try:
        raise exc
    except Exception:
        f = Failure()
    copied = CopiedFailure()
    copied.setCopyableState(FailureSlicer.getStateToCopy(None, f, Broker))
    return RemoteException(copied)


class ServerError(Exception):
    pass


class Remote(RemoteReference):
    def __init__(self, on_call, name=NAME):
        self.on_call = on_call
        self.tracker = type(
            "T", (), dict(interfaceName=name, getURL=lambda self: "pb://x")
        )()

    def callRemote(self, _name, *args, **kw):
        assert not kw, kw
        return self.on_call(_name, args)


W_DATA = [(5, b"x" * 12)]  # implies a share of 17 bytes

OPS = {
    # name: (shares, size)
    "allocate-2x10": ("allocate", {0, 1}, 10),
    "allocate-3x11": ("allocate", {2, 5, 7}, 11),
    "allocate-0": ("allocate", {0}, 0),
    "lease": ("lease",),
    "write": ("write", {0: ([], W_DATA, None), 1: ([(0, 1, b"a")], [], None)}),
    "write2": ("write", {3: ([], [(0, b"y" * 10)], None), 4: ([], [(0, b"z")], None)}),
    "testonly": ("write", {0: ([(0, 1, b"a")], [], None)}),
}
SIZES = [{}, {0: 10, 3: 11}, {1: 0, 2: 1}]
# [(share, size, leased?)]
STATS = [
    [],
    [(0, 15, True), (3, 10, True)],
    [(0, 25, False), (3, 9, False), (8, 100, False)],
    [(0, 21, True), (4, 11, False), (9, 1, True)],
]


def write_price(stats, tw):
    """Reference price of a mutable write."""
    have = {n: (size, leased) for n, size, leased in stats}
    total = 0
    for n, (_, data, _) in tw.items():
        if not data:
            continue
        size, leased = have.get(n, (0, False))
        after = max([size] + [o + len(s) for o, s in data])
        total += ceil(after) - (ceil(size) if leased else 0)
    return total


def make(b):
    def scenario(ch):
        path = zk.new_db()
        conn = zk.open_conn(path)
        try:
            store = zk.make_store(conn)
            v = zk.voucher_number(1)
            toks = [zk.unblinded_token("t%d" % i) for i in range(b["tokens"])]
            store.add(
                v, len(toks), 0, lambda: [zk.random_token("r%d" % i) for i in range(len(toks))]
            )
            store.insert_unblinded_tokens_for_voucher(
                v, "key", toks, completed=True, spendable=True
            )
            ctl = SpendingController.for_store(
                lambda m, ts: [zk.pass_for(t.unblinded_token, m) for t in ts], store
            )
            clock = Clock()
            clock.advance(NOW)
            token_names = [t.unblinded_token.decode() for t in toks]
            sis = [b"storage-index-%02d" % i for i in range(2)]
            decode = {}
            for si in sis:
                for m in (
                    "allocate_buckets",
                    "add_lease",
                    "slot_testv_and_readv_and_writev",
                ):
                    for t in toks:
                        p = zk.pass_for(t.unblinded_token, message_for(m, si))
                        decode[p.pass_bytes] = (t.unblinded_token.decode(), m, si)

            spent, invalid = set(), set()
            calls = []  # ops of the environment
            current = [None]

            class Op:
                pass

            def on_call(name, args):
                # which operation is this? a call is made synchronously from the
                # start of an operation or from the answer to its previous call
                op = current[0]
                check(op is not None, "unexpected remote call", name=name)
                check(
                    op.pending is None,
                    "an operation made a second remote call before the answer to its "
                    "first one",
                )
                op.pending = Deferred()
                op.name, op.args, op.passes = name, args, None
                if name in (
                    "allocate_buckets",
                    "add_lease",
                    "slot_testv_and_readv_and_writev",
                ):
                    op.attempts += 1
                    op.passes = on_paid_call(op, name, args)
                else:
                    check(
                        (name, args) == op.query(),
                        "unexpected remote query",
                        name=name,
                        args=args,
                    )
                    op.queried = True
                return op.pending

            def on_paid_call(op, name, args):
                check(name == op.method, "the wrong method was called", name=name)
                check(
                    args[1:] == op.expected_args,
                    "a call was sent with altered arguments",
                    method=name,
                    got=args[1:],
                    expected=op.expected_args,
                )
                passes = list(args[0])
                out = []
                for p in passes:
                    check(p in decode, "a pass was sent which is not bound to this call")
                    t, m, si = decode[p]
                    check(
                        (m, si) == (name, op.si),
                        "a pass was sent which is bound to another call",
                        bound=(m, si),
                        sent=(name, op.si),
                    )
                    out.append(t)
                check(len(set(out)) == len(out), "a pass was sent twice in one call")
                check(
                    len(out) == op.price(),
                    "the number of passes sent is not the price",
                    method=name,
                    sent=len(out),
                    price=op.price(),
                )
                check(not set(out) & spent, "a spent pass was sent again")
                check(not set(out) & invalid, "a rejected pass was sent again")
                for other in calls:
                    if other is not op and other.passes and not other.done:
                        check(
                            not set(out) & set(other.passes),
                            "one pass was sent in two calls at once",
                        )
                return out

            remote = [Remote(on_call)]
            client = ZKAPAuthorizerStorageClient(
                PASS_VALUE, lambda: remote[0], ctl.get, clock
            )
            secrets = (b"w" * 32, b"r" * 32, b"c" * 32)
            canary = object()

            def begin(kind, si):
                op = Op()
                op.kind, op.si, op.done, op.attempts, op.pending = kind, si, False, 0, None
                op.passes, op.queried, op.answer = None, False, None
                spec = OPS[kind]
                op.spec = spec
                op.expect = None
                if spec[0] == "allocate":
                    _, shares, size = spec
                    op.method = "allocate_buckets"
                    op.expected_args = (si, b"r" * 32, b"c" * 32, shares, size, canary)
                    op.price = lambda: ceil(size) * len(shares)
                    op.query = lambda: None
                    start = lambda: client.allocate_buckets(
                        si, b"r" * 32, b"c" * 32, set(shares), size, canary
                    )
                elif spec[0] == "lease":
                    op.method = "add_lease"
                    op.expected_args = (si, b"r" * 32, b"c" * 32)
                    op.price = lambda: sum(map(ceil, op.answer.values()))
                    op.query = lambda: ("share_sizes", (si, None))
                    start = lambda: client.add_lease(si, b"r" * 32, b"c" * 32)
                else:
                    tw = spec[1]
                    wire_tw = {
                        n: ([(o, l, b"eq", s) for (o, l, s) in t], d, e)
                        for n, (t, d, e) in tw.items()
                    }
                    op.method = "slot_testv_and_readv_and_writev"
                    op.expected_args = (si, secrets, wire_tw, [(0, 5)])
                    op.price = lambda: write_price(op.answer or [], tw)
                    op.query = lambda: ("stat_shares", ([si],))
                    start = lambda: client.slot_testv_and_readv_and_writev(
                        si, secrets, tw, [(0, 5)]
                    )
                calls.append(op)
                op.result = None

                def finished(r):
                    op.result = r

                def run():
                    op.d = start()
                    op.d.addCallbacks(
                        lambda x: finished(("ok", x)),
                        lambda f: finished(("fail", f.value)),
                    )

                act(op, run)

            def act(op, f):
                """Let the code under test run on behalf of op."""
                before = available()
                asked = op.passes or []
                current[0] = op
                try:
                    f()
                finally:
                    current[0] = None
                settle(op, before)

            def in_flight():
                return {t for o in calls if not o.done and o.passes for t in o.passes}

            def available():
                return set(token_names) - spent - invalid - in_flight()

            def settle(op, before):
                if op.result is None:
                    check(op.pending is not None, "a call hangs without a remote call")
                    return
                op.done = True
                kind, value = op.result
                if op.expect is None:
                    # no answer completed it: only running out of tokens may
                    check(
                        kind == "fail" and isinstance(value, NotEnoughTokens),
                        "a call ended without an answer from the server",
                        got=repr(op.result),
                    )
                    need = op.need() if op.need else op.price()
                    check(
                        need > len(before),
                        "a call failed for lack of tokens although there are enough",
                        need=need,
                        available=len(before),
                    )
                else:
                    ekind, evalue = op.expect
                    check(
                        kind == ekind
                        and (
                            value is evalue
                            or value == evalue
                            or (isinstance(evalue, type) and isinstance(value, evalue))
                        ),
                        "the caller did not get the server's answer",
                        got=repr(op.result),
                        expected=repr(op.expect),
                    )
                op.passes = None

            Op.need = None

            def answer(op, what):
                d, op.pending = op.pending, None
                passes = op.passes
                if what[0] == "query":
                    op.answer = what[1]
                    if op.spec[0] == "lease":
                        val = dict(what[1])
                    else:
                        val = [
                            {
                                n: ShareStat(
                                    size=s, lease_expiration=int(NOW) + (1 if l else 0)
                                )
                                for n, s, l in what[1]
                            }
                        ]
                    act(op, lambda: d.callback(val))
                elif what[0] == "garbage":
                    op.expect = ("fail", ValueError)
                    act(op, lambda: d.callback(what[1]))
                elif what[0] == "ok":
                    if op.spec[0] == "allocate":
                        _, shares, size = op.spec
                        already = set(what[1])
                        # the server need not take those which it does not have:
                        # it may be full or receiving them already
                        val = (already, {n: object() for n in what[2]})
                        used = ceil(size) * len(val[1])
                        op.expect = ("ok", val)
                        spent.update(passes[:used])
                    else:
                        spent.update(passes)
                        if op.spec[0] == "lease":
                            val = None
                            op.expect = ("ok", None)
                        else:
                            val = (what[1], {0: [b"data"]})
                            op.expect = ("ok", val)
                    act(op, lambda: d.callback(val))
                elif what[0] == "reject":
                    bad = [passes[i] for i in what[1]]
                    exc = MorePassesRequired(
                        len(passes) - len(bad), len(passes), frozenset(what[1])
                    )
                    if b.get("wire"):
                        exc = wired(exc)
                    if not bad:
                        op.expect = ("fail", exc)
                    else:
                        op.expect = None
                        op.need = lambda n=len(bad): n
                    invalid.update(bad)
                    # those which were not rejected stay with the call
                    op.passes = [t for t in passes if t not in bad]
                    act(op, lambda: d.errback(exc))
                    op.need = None
                elif what[0] == "error":
                    exc = {
                        "server": ServerError("broken"),
                        "lost": DeadReferenceError("gone"),
                        "wire": wired(ServerError("broken")),
                    }[what[1]]
                    op.expect = ("fail", exc)
                    act(op, lambda: d.errback(exc))
                elif what[0] == "cancel":
                    op.expect = ("fail", CancelledError)
                    act(op, op.d.cancel)

            def observe():
                db = zk.dump(path)
                have = {r[0] for r in db["unblinded-tokens"]}
                bad = {r[0] for r in db["invalid-unblinded-tokens"]}
                check(
                    have == set(token_names) - spent - invalid,
                    "spent passes are not exactly those which the server accepted",
                    not_spent=sorted(have & spent),
                    lost=sorted(set(token_names) - spent - invalid - have),
                    rejected=sorted(have & invalid),
                )
                check(
                    bad == invalid,
                    "passes set aside are not exactly those which the server rejected",
                )
                n = store.count_unblinded_tokens()
                free = available()
                check(
                    n == len(free),
                    "passes of a finished call are not spendable again"
                    if n < len(free)
                    else "passes of an unfinished call are spendable",
                    got=n,
                    expected=len(free),
                )
                got = store.get_unblinded_tokens(n)
                check(
                    {t.unblinded_token.decode() for t in got} == free,
                    "the wrong passes are spendable",
                )
                store.reset_unblinded_tokens(got)

            budget = {"calls": b["calls"], "bad": b["bad"], "reject": b["rejects"]}

            def key():
                return (
                    sorted(budget.items()),
                    sorted(spent),
                    sorted(invalid),
                    [
                        (o.kind, o.si, o.name, o.attempts, o.passes, repr(o.answer), o.queried)
                        for o in calls
                        if not o.done
                    ],
                )

            if b.get("badref"):
                remote[0] = Remote(on_call, "RISomethingElse")
                d = client.allocate_buckets(sis[0], b"r" * 32, b"c" * 32, {0}, 10, canary)
                r = zk.result_of(d)
                check(
                    r[0] == "fail" and isinstance(r[1], IncorrectStorageServerReference),
                    "a reference to another kind of server is used",
                    got=repr(r),
                )
                remote[0] = Remote(on_call)
                observe()
            while True:
                open_ops = [o for o in calls if not o.done]
                events = []
                if budget["calls"] and len(open_ops) < b["parallel"]:
                    for k in b["kinds"]:
                        events.append(("begin", k))
                for i, o in enumerate(open_ops):
                    if o.passes is None:
                        menu = SIZES if o.spec[0] == "lease" else STATS
                        for j in range(len(menu)):
                            events.append(("answer", i, ("query", menu[j])))
                        if budget["bad"]:
                            for g in (None, {"0": 1}, [{0: 5}], 7):
                                if g == [{0: 5}] and o.spec[0] == "lease":
                                    continue
                                events.append(("answer", i, ("garbage", g)))
                    else:
                        if o.spec[0] == "allocate":
                            shares = sorted(o.spec[1])
                            for k in range(len(shares) + 1):
                                for sub in itertools.combinations(shares, k):
                                    rest = [n for n in shares if n not in sub]
                                    for j in range(len(rest), -1, -1):
                                        for new in itertools.combinations(rest, j):
                                            events.append(
                                                ("answer", i, ("ok", sub, new))
                                            )
                        elif o.spec[0] == "lease":
                            events.append(("answer", i, ("ok", None)))
                        else:
                            events.append(("answer", i, ("ok", True)))
                            events.append(("answer", i, ("ok", False)))
                            if budget["bad"]:
                                for g in (None, (1, {}), (True, {"0": []}), (True, {0: ["a"]})):
                                    events.append(("answer", i, ("garbage", g)))
                        if budget["reject"]:
                            for k in range(0, len(o.passes) + 1):
                                for sub in itertools.combinations(range(len(o.passes)), k):
                                    events.append(("answer", i, ("reject", sub)))
                    if budget["bad"]:
                        for e in ("server", "lost", "wire"):
                            events.append(("answer", i, ("error", e)))
                        events.append(("answer", i, ("cancel",)))
                if not events:
                    break
                ev = ch.pick(events, "event")
                if ev[0] == "begin":
                    budget["calls"] -= 1
                    # two calls on the same storage index, or on different ones
                    begin(ev[1], sis[len(calls) % 2 if b.get("two_si") else 0])
                else:
                    o = open_ops[ev[1]]
                    if ev[2][0] == "reject":
                        budget["reject"] -= 1
                    elif ev[2][0] not in ("ok", "query"):
                        budget["bad"] -= 1
                    answer(o, ev[2])
                if not ch.replaying:
                    observe()
                ch.visit(key)
            check(
                store.count_unblinded_tokens() == len(token_names) - len(spent | invalid),
                "tokens are still in use after every call ended",
            )
            return "spent=%d invalid=%d" % (len(spent), len(invalid))
        finally:
            conn.close()
            zk.remove(path)

    return scenario


def make_large(b):
    """
    Rejections of many passes as reported over a real connection, where the text of
    the error is limited: retrying must reach a call with only good passes.
    """

    def scenario(ch):
        n = ch.pick(b["sizes"], "price")
        stride = ch.pick(b["strides"], "every n-th pass is bad")
        path = zk.new_db()
        conn = zk.open_conn(path)
        try:
            store = zk.make_store(conn)
            v = zk.voucher_number(1)
            toks = [zk.unblinded_token("t%d" % i) for i in range(3 * n)]
            store.add(v, 1, 0, lambda: [zk.random_token("r")])
            store.insert_unblinded_tokens_for_voucher(
                v, "key", toks, completed=True, spendable=True
            )
            ctl = SpendingController.for_store(
                lambda m, ts: [zk.pass_for(t.unblinded_token, m) for t in ts], store
            )
            si = b"storage-index-00"
            msg = message_for("allocate_buckets", si)
            bad = {
                zk.pass_for(t.unblinded_token, msg).pass_bytes
                for i, t in enumerate(toks)
                if i < n and i % stride == 0
            }
            sent = []

            def on_call(name, args):
                sent.append(args[0])
                check(len(sent) < 50, "rejected passes are sent again and again")
                failed = frozenset(i for i, p in enumerate(args[0]) if p in bad)
                d = Deferred()
                if failed:
                    d.errback(wired(MorePassesRequired(n - len(failed), n, failed)))
                else:
                    d.callback((set(), {0: object()}))
                return d

            remote = Remote(on_call)
            client = ZKAPAuthorizerStorageClient(PASS_VALUE, lambda: remote, ctl.get, Clock())
            r = zk.result_of(
                client.allocate_buckets(si, b"r" * 32, b"c" * 32, {0}, PASS_VALUE * n, None)
            )
            check(
                r[0] == "ok", "the call did not succeed with replaced passes", got=repr(r)[:300]
            )
            check(
                len(zk.dump(path)["invalid-unblinded-tokens"]) == len(bad),
                "rejected passes were not all set aside",
            )
            check(
                store.count_unblinded_tokens() == 3 * n - len(bad) - n,
                "wrong number of spendable tokens after replacing rejected passes",
            )
            return "attempts=%d" % len(sent)
        finally:
            conn.close()
            zk.remove(path)

    return scenario


ALL = list(OPS)

CHECK = Check(
    "S02",
    "model_checking",
    "every interleaving of up to two overlapping calls from the menu with every server "
    "answer (each subset of shares already present or refused, each subset of passes rejected, "
    "error, lost connection, cancellation, answers of the wrong type), on the real "
    "client, spending controller and store; states merged on open calls, passes "
    "presented, attempts and token sets; oracle: a ledger of accepted and rejected "
    "passes and an independent price function",
    [
        "a call whose answer is lost or an error counts as not accepted",
        "rejections name passes of the call (the server is not malicious)",
        "CopiedFailure/RemoteException built with Foolscap's own slicer stand for the wire",
    ],
    [
        Scenario(
            "one-call",
            make,
            dict(tokens=8, calls=1, parallel=1, bad=1, rejects=2, kinds=ALL, badref=True),
            dict(tokens=8, calls=2, parallel=1, bad=2, rejects=3, kinds=ALL, badref=True),
        ),
        Scenario(
            "scarce-tokens",
            make,
            dict(tokens=4, calls=2, parallel=1, bad=1, rejects=2,
                 kinds=["allocate-2x10", "lease", "write"]),
            dict(tokens=5, calls=3, parallel=1, bad=1, rejects=3,
                 kinds=["allocate-2x10", "lease", "write", "write2"]),
        ),
        Scenario(
            "over-the-wire",
            make,
            dict(tokens=5, calls=1, parallel=1, bad=1, rejects=2, kinds=ALL, wire=True),
            dict(tokens=5, calls=2, parallel=1, bad=1, rejects=3, kinds=ALL, wire=True),
        ),
        Scenario(
            "two-at-once",
            make,
            dict(tokens=5, calls=2, parallel=2, bad=1, rejects=1, two_si=True,
                 kinds=["allocate-2x10", "lease", "write2"]),
            dict(tokens=6, calls=3, parallel=2, bad=1, rejects=2, two_si=True,
                 kinds=["allocate-2x10", "lease", "write2"]),
        ),
        Scenario(
            "two-at-once-same-index",
            make,
            dict(tokens=4, calls=2, parallel=2, bad=0, rejects=1, kinds=["allocate-2x10", "write2"]),
            dict(tokens=6, calls=3, parallel=3, bad=0, rejects=2, kinds=["allocate-2x10", "write2"]),
        ),
        Scenario(
            "many-rejections",
            make_large,
            dict(sizes=[1, 10, 100, 240, 400], strides=[1, 2, 3]),
            dict(sizes=[1, 10, 100, 240, 400, 1500], strides=[1, 2, 3, 7]),
        ),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
