"""
S04: the client, the server and the price calculator agree on every price.
"""

import itertools
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from foolscap.referenceable import RemoteReference
from twisted.internet.defer import maybeDeferred

from _zkapauthorizer._storage_client import ZKAPAuthorizerStorageClient
from _zkapauthorizer.storage_common import MorePassesRequired
from challenge_bypass_ristretto import random_signing_key

import S03
from S03 import C1, DAY, LEASE, PV, R1, R2, SI_I, SI_M, W
from mc import node, zk
from mc.core import Violation, check
from mc.runner import Check, Scenario

NAME = "RIPrivacyPassAuthorizedStorageServer.tahoe.privatestorage.io"


def ceil_to(n, pv):
    return -(-n // pv)


class Remote(RemoteReference):
    def __init__(self, on_call):
        self.on_call = on_call
        self.tracker = type(
            "T", (), dict(interfaceName=NAME, getURL=lambda self: "pb://x")
        )()

    def callRemote(self, _name, *args):
        return maybeDeferred(self.on_call, _name, *args)


class Group:
    """A pass group which only remembers what became of it."""

    def __init__(self, log, passes):
        self.log = log
        self.passes = passes

    def split(self, idx):
        idx = set(idx)
        return (
            Group(self.log, [p for i, p in enumerate(self.passes) if i in idx]),
            Group(self.log, [p for i, p in enumerate(self.passes) if i not in idx]),
        )

    def expand(self, n):
        raise Violation("the client needed more passes for its call")

    def mark_spent(self):
        self.log["spent"] += len(self.passes)

    def mark_invalid(self, reason):
        raise Violation("valid passes were set aside as invalid")

    def reset(self):
        self.log["reset"] += len(self.passes)


class World(S03.World):
    """
    The model world of S03 with every paid call made by the real client instead
    of directly.
    """

    def __init__(self):
        super().__init__()
        real = self.server
        log = self.log = dict(sent=[], spent=0, reset=0)
        pool = self.pool

        def get_passes(message, n):
            good = pool["good"][message]
            assert n < len(good)
            return Group(log, good[:n])

        def on_call(name, *args):
            if name in (S03.ALLOC, S03.LEASEOP, S03.WRITE):
                log["sent"].append(list(args[0]))
            return getattr(real, "remote_" + name)(*args)

        self.client = ZKAPAuthorizerStorageClient(
            PV, lambda: Remote(on_call), get_passes, self.clock
        )
        world = self

        class Proxy:
            def __getattr__(self, name):
                return getattr(real, name)

            def remote_allocate_buckets(self, enc, *args):
                return world.through(enc, world.client.allocate_buckets, *args)

            def remote_add_lease(self, enc, *args):
                return world.through(enc, world.client.add_lease, *args)

            def remote_slot_testv_and_readv_and_writev(self, enc, si, sec, tw, rv):
                tw = {n: ([(o, l, s) for o, l, _, s in t], d, e) for n, (t, d, e) in tw.items()}
                return world.through(
                    enc,
                    world.client.slot_testv_and_readv_and_writev,
                    si,
                    sec,
                    tw,
                    rv,
                    unpriced=any(e is not None for _, _, e in tw.values()),
                )

        self.server = Proxy()

    def through(self, enc, method, *args, unpriced=False):
        del self.log["sent"][:]
        self.log["spent"] = self.log["reset"] = 0
        before = self.paid_sum()
        kind, *value = zk.result_of(method(*args))
        check(kind != "pending", "a client call did not end")
        check(
            len(self.log["sent"]) == 1,
            "the client did not make exactly one paid call",
            calls=len(self.log["sent"]),
            result=repr(value),
        )
        [sent] = self.log["sent"]
        if not unpriced:
            check(
                len(sent) == len(enc),
                "the client sent another number of passes than the price",
                sent=len(sent),
                price=len(enc),
                result=repr(value),
            )
            check(
                not (kind == "fail" and isinstance(value[0], MorePassesRequired)),
                "the server refused the number of passes the client computed",
                error=repr(value[0]),
            )
        if kind == "fail":
            check(
                (self.log["spent"], self.log["reset"]) == (0, len(sent)),
                "passes of a failed call were not returned",
            )
            raise value[0]
        check(
            self.log["spent"] == self.paid_sum() - before
            and self.log["spent"] + self.log["reset"] == len(sent),
            "client and server differ on what was spent",
            client=self.log["spent"],
            server=self.paid_sum() - before,
            sent=len(sent),
        )
        return value[0]

    def paid_sum(self):
        return self.registry.get_sample_value(
            "zkapauthorizer_server_spending_successes_sum"
        )


def make_end_to_end(b):
    return S03.make_history(b, World)


# ------------------------------------------------------------- calculator


def quote(root, body, headers=node.JSON):
    return node.request(root, b"POST", b"/calculate-price", headers, body)


def make_calculator(b):
    def scenario(ch):
        k, n = ch.pick(
            [(k, n) for k in b["needed"] for n in b["total"] if n >= k] + [None], "k,n"
        ) or (None, None)
        pv = ch.pick(list(b["pass_value"]) + [None], "pass value")
        duration = ch.pick([None] + b["min_remaining"], "lease options")
        nd = node.Node(
            (["pass-value = %d" % pv] if pv else []) + list(duration or []),
            ["shares.needed = %d" % k, "shares.total = %d" % n] if k else [],
        )
        try:
            root = nd.resource()
            K, N, V = k or 3, n or 10, pv or 2**20
            unit = K * V
            edges = sorted(
                {
                    x
                    for m in (0, 1, 2, 5)
                    for x in (m * unit - 1, m * unit, m * unit + 1, m * unit + K, m * V)
                    if x >= 0
                }
                | {1, 2, 2**40 + 1, 10**17 + 1}
            )
            asked = 0
            lists = [()] + [(x,) for x in edges]
            lists += list(itertools.product(edges, edges))
            for sizes in lists:
                price = sum(N * ceil_to(ceil_to(s, K), V) for s in sizes)
                r = quote(root, json.dumps({"version": 1, "sizes": list(sizes)}).encode())
                check(r.status == 200, "a price request failed", status=r.status, sizes=sizes)
                check(
                    r.json() == {"price": price, "period": LEASE},
                    "the quoted price is not the price",
                    needed=K,
                    total=N,
                    pass_value=V,
                    sizes=sizes,
                    got=r.json(),
                    price=price,
                )
                asked += 1
            return "%d quotes" % asked
        finally:
            nd.close()

    return scenario


BAD_QUOTES = [
    b"",
    b"{",
    b"[]",
    b"1",
    b"null",
    b'"x"',
    b"{}",
    b'{"version": 1}',
    b'{"sizes": [1]}',
    b'{"version": 2, "sizes": [1]}',
    b'{"version": "1", "sizes": [1]}',
    b'{"version": null, "sizes": [1]}',
    b'{"version": 1, "sizes": 1}',
    b'{"version": 1, "sizes": {}}',
    b'{"version": 1, "sizes": "1"}',
    b'{"version": 1, "sizes": [-1]}',
    b'{"version": 1, "sizes": [1, -1]}',
    b'{"version": 1, "sizes": [1.5]}',
    b'{"version": 1, "sizes": [1, "1"]}',
    b'{"version": 1, "sizes": [null]}',
    b'{"version": 1, "sizes": [[1]]}',
    b'{"version": 1, "sizes": null}',
    b'\xff{"version": 1, "sizes": [1]}',
]


def make_bad_quote(b):
    def scenario(ch):
        nd = node.Node()
        try:
            root = nd.resource()
            body = ch.pick(BAD_QUOTES + [None], "body")
            ctype = ch.pick([b"application/json", b"text/plain", None], "content type")
            headers = [(b"Content-Type", ctype)] if ctype else []
            good = body is None and ctype == b"application/json"
            r = quote(root, body if body is not None else b'{"version": 1, "sizes": [3]}', headers)
            check(r is not None, "a price request was not answered")
            check(
                r.status == (200 if good else 400),
                "a malformed price request was not refused as such",
                status=r.status,
                body=body,
            )
            return str(r.status)
        finally:
            nd.close()

    return scenario


# ------------------------------------------------------------- configuration


def make_configured(b):
    """
    Plugin objects made from one configuration use one price.
    """

    def scenario(ch):
        pv = ch.pick(b["pass_value"], "pass value")
        V = pv or 2**20
        conf = ["pass-value = %d" % pv] if pv else []
        nd = node.Node(conf)
        try:
            root = nd.resource()
            store = root.store
            toks = [zk.unblinded_token("t%d" % i) for i in range(24)]
            v = zk.voucher_number(1)
            store.add(v, 24, 0, lambda: [zk.random_token("r%d" % i) for i in range(24)])
            store.insert_unblinded_tokens_for_voucher(
                v, "KEY", toks, completed=True, spendable=True
            )
            sizes = [0, 1, V - 1, V, V + 1, 2 * V, 2 * V + 1]
            shares = ch.pick([{0}, {0, 1}, {3, 4, 9}], "shares")
            size = ch.pick(sizes, "size")
            price = len(shares) * ceil_to(size, V)
            # what the client sends
            sent = []

            class Gone(Exception):
                pass

            def on_call(name, *args):
                if name == "share_sizes":
                    return {n: size for n in shares}
                sent.append(len(args[0]))
                raise Gone()

            client = nd.plugin.get_storage_client(nd.config, {}, lambda: Remote(on_call))
            zk.result_of(client.allocate_buckets(SI_I, R1, C1, shares, size, None))
            zk.result_of(client.add_lease(SI_I, R1, C1))
            check(
                sent == [price, price],
                "a configured client sends another number of passes than the price",
                sent=sent,
                price=price,
                pass_value=V,
            )
            # what the server asks for
            keypath = os.path.join(nd.dir, "signing.key")
            with open(keypath, "wb") as f:
                f.write(random_signing_key().encode_base64() + b"\n")
            server_conf = {
                "ristretto-issuer-root-url": "http://issuer.invalid/",
                "ristretto-signing-key-path": keypath,
            }
            if pv:
                server_conf["pass-value"] = str(pv)
            from allmydata.storage.server import StorageServer

            anon = StorageServer(os.path.join(nd.dir, "storage"), b"n" * 20, clock=nd.reactor)
            _, server = zk.result_of(nd.plugin.get_storage_server(server_conf, lambda: anon))
            canary = S03.Canary()
            required = 0
            try:
                server.storage_server.remote_allocate_buckets(
                    [], SI_I, R1, C1, shares, size, canary
                )
            except MorePassesRequired as e:
                required = e.required_count
            check(
                required == price,
                "a configured server requires another number of passes than the price",
                required=required,
                price=price,
                pass_value=V,
            )
            # what the lease maintenance report says
            activity = store.start_lease_maintenance()
            activity.observe([size] * len(shares))
            activity.finish()
            r = node.request(root, b"GET", b"/lease-maintenance")
            check(r.status == 200, "the maintenance report failed")
            check(
                r.json()["spending"]["count"] == price,
                "lease maintenance reports another price",
                got=r.json(),
                price=price,
            )
            return "price %d" % price
        finally:
            nd.close()

    return scenario


def make_report(b):
    """
    The reported price of a lease maintenance run is the price of renewing
    everything observed.
    """

    def scenario(ch):
        nd = node.Node(["pass-value = 10"])
        try:
            root = nd.resource()
            edges = [0, 1, 9, 10, 11, 20, 21]
            lists = [[]] + [[x] for x in edges] + [[9, 9], [1, 0, 11], [10, 20, 5]]
            runs = ch.choose(2, "earlier run")
            n = 0
            for run in range(runs + 1):
                act = root.store.start_lease_maintenance()
                want = 0
                for i in range(b["observations"]):
                    sizes = ch.pick(lists + (["stop"] if i else []), "observed") if run == runs else [7]
                    if sizes == "stop":
                        break
                    act.observe(list(sizes))
                    want += sum(ceil_to(s, 10) for s in sizes)
                    r = node.request(root, b"GET", b"/lease-maintenance").json()
                    check(
                        (r["spending"] is None) == (run == 0),
                        "an unfinished maintenance run is reported",
                    )
                act.finish()
            r = node.request(root, b"GET", b"/lease-maintenance").json()
            check(
                r["spending"] is not None and r["spending"]["count"] == want,
                "lease maintenance reports another price",
                got=r,
                price=want,
            )
            return str(want)
        finally:
            nd.close()

    return scenario


CHECK = Check(
    "S04",
    "exploration",
    "the call histories of S03 made through the real client against the real server "
    "(price computed by the client = required by the server = reference price, on every "
    "call); every quote over boundary sizes, encodings and pass values through the real "
    "HTTP resource; every configured object of one plugin instance",
    [
        "quotes are for file data; Tahoe-LAFS adds its own share overhead",
        "client and server are configured with the same pass value",
    ],
    [
        Scenario(
            "end-to-end-mutable",
            make_end_to_end,
            dict(
                depth=3,
                allocate=[],
                lease=[(SI_M, R1), (SI_M, R2)],
                write=[(n, R1) for n in sorted(W)] + [("1@0", R2)],
                advance=[10 * DAY, LEASE, 0.5],
            ),
            dict(
                depth=5,
                allocate=[],
                lease=[(SI_M, R1), (SI_M, R2)],
                write=[(n, R1) for n in sorted(W)] + [("1@0", R2), ("two", R2)],
                advance=[10 * DAY, LEASE, 0.5],
            ),
        ),
        Scenario(
            "end-to-end-immutable",
            make_end_to_end,
            dict(
                depth=4,
                allocate=[((0,), 10), ((0, 1), 11), ((1, 2), 0), ((2, 3, 5), 21)],
                lease=[(SI_I, R1), (SI_I, R2)],
                write=[],
                advance=[600, LEASE],
            ),
            dict(
                depth=6,
                allocate=[((0,), 10), ((0, 1), 11), ((1, 2), 0)],
                lease=[(SI_I, R1), (SI_I, R2)],
                write=[],
                advance=[600, LEASE],
                full=True,
            ),
        ),
        Scenario(
            "calculator",
            make_calculator,
            dict(needed=[1, 2, 3], total=[1, 3, 4], pass_value=[1, 7], min_remaining=[]),
            dict(
                needed=[1, 2, 3, 5],
                total=[1, 2, 3, 4, 7, 10],
                pass_value=[1, 2, 7, 1000, 2**20],
                min_remaining=[
                    ["lease.min-time-remaining = 604800"],
                    ["lease.crawl-interval.mean = 864000", "lease.crawl-interval.range = 86400"],
                ],
            ),
        ),
        Scenario("malformed-quotes", make_bad_quote, {}),
        Scenario("configured", make_configured, dict(pass_value=[None, 1, 7, 2**20, 10**7])),
        Scenario("maintenance-report", make_report, dict(observations=2), dict(observations=3)),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
