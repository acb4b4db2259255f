"""
U01: neither the issuer, nor a storage server, nor a log learns what connects a voucher
with its passes, or what would allow to spend them.
"""

import base64
import json
import os
import shutil

import eliot
import tahoe_capabilities as tc
from allmydata.client import config_from_string
from challenge_bypass_ristretto import BlindedToken
from eliot.json import EliotJSONEncoder
from foolscap.referenceable import Referenceable
from hyperlink import DecodedURL
from twisted.internet import error
from twisted.internet.defer import Deferred
from twisted.logger import eventAsText, globalLogPublisher

from _zkapauthorizer._storage_client import ZKAPAuthorizerStorageClient
from _zkapauthorizer.config import REPLICA_RWCAP_BASENAME
from _zkapauthorizer.controller import PaymentController, RistrettoRedeemer
from _zkapauthorizer.spending import SpendingController
from _zkapauthorizer.tahoe import TahoeAPIError

import P05
import R02
import V01
import W01
from S03 import C1, R1, WE
from mc import http, wire, zk
from mc.core import check
from mc.grid import Grid
from mc.node import JSON, TOKEN, Connection, raw_request
from mc.runner import Check, Scenario
from mc.ws import HANDSHAKE, frame

ROOT = "http://127.0.0.1:8080/"
SECTION = R02.SECTION
PV = 1000


# ------------------------------------------------------------------- secrets


def raw(b64):
    return base64.b64decode(b64)


def forms(secret):
    """
    What a text or a message contains which contains this secret: as it is, in
    hexadecimal and in base 64 (at each alignment).
    """
    out = {secret, secret.hex().encode(), secret.hex().upper().encode()}
    for k in range(3):
        part = secret[k : k + (len(secret) - k) // 3 * 3]
        out.add(base64.b64encode(part))
        out.add(base64.urlsafe_b64encode(part))
    # as text of a Python or JSON literal
    out.add(repr(secret)[2:-1].encode())
    return out


class Secrets:
    """kind -> the values of that kind"""

    def __init__(self):
        self.values = {}
        self._forms = {}

    def add(self, kind, *values):
        for v in values:
            if isinstance(v, str):
                v = v.encode()
            if v not in self.values.setdefault(kind, set()):
                self.values[kind].add(v)
                self._forms[v] = forms(v)

    def absent(self, where, data, kinds, but=()):
        for kind in kinds:
            for v in self.values.get(kind, ()):
                if v not in but and any(f in data for f in self._forms[v]):
                    check(
                        False,
                        "%s gets %s" % (where, kind),
                        value=v,
                        data=data[:2000],
                    )


class Records:
    """
    Everything which the code writes to either log.
    """

    def __init__(self):
        self.text = []

    def event(self, event):
        self.text.append(eventAsText(event, includeTimestamp=False))
        # a log file in JSON has the values, too
        self.text.append(repr({k: v for k, v in event.items() if k not in ("log_source", "log_logger", "log_failure")}))

    def message(self, message):
        self.text.append(json.dumps(message, cls=EliotJSONEncoder, default=repr))

    def __enter__(self):
        globalLogPublisher.addObserver(self.event)
        eliot.add_destinations(self.message)
        return self

    def __exit__(self, *_):
        globalLogPublisher.removeObserver(self.event)
        eliot.remove_destination(self.message)

    def take(self):
        t = "\n".join(self.text).encode("utf-8", "surrogateescape")
        self.text = []
        return t


# ------------------------------------------------------------------ the world


class Tokens(Secrets):
    def random_tokens(self, texts):
        for t in texts:
            b = raw(t)
            assert len(b) == 96, len(b)
            self.add("a random token", b)
            self.add("the number of a token", b[:64])
            self.add("a blinding factor", b[64:])

    def unblinded(self, texts):
        for t in texts:
            b = raw(t)
            self.add("an unblinded token", b)
            self.add("the signed point of a token", b[64:])


class World:
    def __init__(self, groups, tokens):
        http.install()
        self.groups, self.tokens = groups, tokens
        self.secrets = Tokens()
        k = W01.keys()
        self.servers = [W01.Server(PV), W01.Server(PV, "foreign")]
        self.accepts = ["good", "foreign"]
        self.allowed = {R02.public(k["good"]), R02.public(k["foreign"])}
        for key in ("good", "foreign"):
            self.secrets.add("a signing key", raw(k[key].encode_base64()))
        self.path = zk.new_db()
        self.heads = {}  # of requests to the issuer, without their length
        self.submitted = {}  # (voucher, group) -> body
        self.origin = {}  # token number -> (voucher, group)
        self.blinded = {}  # blinded token -> (voucher, group)
        self.settled = set()  # numbers of tokens accepted or rejected
        self.passes = {}  # (number, message) -> signature
        self.calls = 0
        self.kind = 0  # of the next call
        self.conn = None
        self.start()

    def start(self):
        self.issuer = http.Server()
        config = config_from_string(
            zk.scratch(), "tub.port", "[client]\n[%s]\nristretto-issuer-root-url = %s\n" % (SECTION, ROOT)
        )
        self.redeemer = RistrettoRedeemer.make(SECTION, config, None, self.issuer.reactor)
        self.conn = zk.open_conn(self.path)
        self.store = zk.make_store(self.conn)
        self.controller = PaymentController(
            self.issuer.reactor,
            self.store,
            self.redeemer,
            default_token_count=self.tokens,
            num_redemption_groups=self.groups,
            allowed_public_keys=self.allowed,
        )
        self.spending = SpendingController.for_store(self.redeemer.tokens_to_passes, self.store)
        self.current = None

    def restart(self):
        self.conn.kill()
        self.start()

    def learn(self):
        """
        What is secret now.
        """
        rows = zk.dump(self.path)
        for r in rows["tokens"]:
            self.origin.setdefault(raw(r[0])[:64], r[1:])
        self.secrets.random_tokens([r[0] for r in rows["tokens"]])
        self.secrets.unblinded([r[0] for r in rows["unblinded-tokens"]])

    # -- the issuer

    def pending(self):
        return self.issuer.waiting()

    def take_request(self):
        ex = self.issuer.next()
        ex.accept()
        r = ex.request()
        self.learn()
        data = ex.transport.value()
        self.secrets.absent(
            "the issuer",
            data,
            ["a random token", "the number of a token", "a blinding factor", "an unblinded token", "the signed point of a token"],
        )
        doc = json.loads(r.body)
        check(
            set(doc) == {"redeemVoucher", "redeemCounter", "redeemTokens"} and r.method == b"POST",
            "the issuer gets something else than voucher, counter and blinded tokens",
            got=sorted(doc),
        )
        head = data.partition(b"\r\n\r\n")[0]
        head = [line for line in head.split(b"\r\n") if not line.lower().startswith(b"content-length")]
        check(
            self.heads.setdefault(0, head) == head,
            "requests for different vouchers, groups or attempts differ in more than their documents",
            first=self.heads[0],
            now=head,
        )
        v, g = doc["redeemVoucher"], doc["redeemCounter"]
        self.secrets.add("a voucher", v)
        for t in doc["redeemTokens"]:
            b = raw(t)
            check(len(b) == 32, "not a blinded token", token=t)
            check(
                self.blinded.setdefault(b, (v, g)) == (v, g),
                "the same blinded token for two vouchers or groups",
                first=self.blinded[b],
                now=(v, g),
            )
            self.secrets.add("a blinded token", b)
        check(len(set(doc["redeemTokens"])) == len(doc["redeemTokens"]), "a token is submitted twice")
        return ex, v, g, doc["redeemTokens"]

    def answer(self, kind):
        if kind == "refused":
            self.issuer.next().refuse()
            return
        ex, v, g, texts = self.take_request()
        if kind == "unpaid":
            ex.send(http.response(400, b'{"success": false, "reason": "unpaid"}'))
            return
        if kind == "odd":
            ex.send(http.response(500, b"out of order"))
            return
        # the first voucher is of the first server's issuer
        which = self.accepts[int(v == zk.voucher_number(2).decode())]
        key = W01.keys()[which]
        tokens = [BlindedToken.decode_base64(t.encode()) for t in texts]
        doc = R02.sign(key, tokens)
        for s in doc["signatures"]:
            self.secrets.add("a signed token", raw(s))
        if kind == "lost":
            ex.send(http.response(200, json.dumps(doc).encode())[:-3])
            ex.close(error.ConnectionLost())
            return
        if kind == "proof":
            other = W01.keys()[[a for a in self.accepts if a != which][0]]
            doc["proof"] = R02.sign(other, tokens)["proof"]
        # what an issuer might use to recognize the client
        ex.send(
            http.response(
                200,
                json.dumps(doc).encode(),
                [
                    (b"Set-Cookie", b"id=%d; Path=/; Max-Age=99999999" % len(self.submitted)),
                    (b"ETag", b'"%d"' % len(self.submitted)),
                    (b"Last-Modified", b"Wed, 21 Oct 2015 07:28:%02d GMT" % (len(self.submitted) % 60)),
                ],
            )
        )
        self.submitted[v, g] = texts
        self.learn()

    # -- the storage servers

    def call(self, which, shares, fate):
        """
        A storage call which has a price of ``shares`` passes.
        """
        self.calls += 1
        srv = self.servers[which]
        w = wire.Wire()
        rref = w.reference(srv.server)
        sent = []
        write = w.up.write
        w.up.write = lambda data: (sent.append(bytes(data)), write(data))
        seen = len(srv.calls)
        client = ZKAPAuthorizerStorageClient(PV, lambda: rref, self.spending.get, srv.clock)
        # the indexes of successive calls differ at one end only, and a call which was
        # lost is followed by one of the same kind
        si = b"%03d-index-of-%03d" % (self.calls // 2, (self.calls + 1) // 2)
        kind = self.kind
        queries = 0 if kind == 0 else 1  # calls without passes come first
        if fate == "ok":
            self.kind = (self.kind + 1) % 3
        if kind == 2:
            for n in range(shares):
                path = srv.path(si, n)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                V01.WRITERS["immutable"](path, 2, PV, [0], 0)
            d = client.add_lease(si, R1, C1)
        elif kind == 0:
            d = client.allocate_buckets(si, R1, C1, set(range(shares)), PV, Referenceable())
        else:
            d = client.slot_testv_and_readv_and_writev(
                si, (WE, R1, C1), {n: ([], [(0, b"x" * PV)], None) for n in range(shares)}, []
            )
        wire.settle()
        turns = 0
        while w.alive and (w.up.pending() or w.down.pending()):
            if w.up.pending():
                if fate == "request lost" and len(srv.calls) == seen + queries and b"".join(sent):
                    w.lose()
                    break
                w.deliver(w.up)
            if w.alive and w.down.pending():
                if fate == "answer lost" and len(srv.calls) > seen + queries:
                    w.lose()
                    break
                w.deliver(w.down)
            turns += 1
            assert turns < 100
        wire.settle()
        got = zk.result_of(d)
        check(got[0] != "pending", "a call never ends")
        data = b"".join(sent)
        self.learn()
        numbers = self.secrets.values.get("the number of a token", set())
        shown = {n for n in numbers if any(f in data for f in forms(n))}
        self.secrets.absent(
            "a storage server",
            data,
            [
                "a random token",
                "a blinding factor",
                "an unblinded token",
                "the signed point of a token",
                "a voucher",
                "a blinded token",
                "a signed token",
            ],
        )
        attempts = [c for c in srv.calls[seen:] if c[0] in ("allocate_buckets", "add_lease", "slot_testv_and_readv_and_writev")]
        again = shown & self.settled
        check(
            not again,
            "a token is shown to a storage server although it was accepted or rejected before",
            tokens=len(again),
        )
        seen_numbers = set()
        last = None
        for name, args, kind, value in attempts:
            numbers_now = []
            for p in args[0]:
                pre, sig = p.split(b" ")
                number = raw(pre)
                numbers_now.append(number)
                first = self.passes.setdefault((number, (name, si)), sig)
                check(first == sig, "the passes of the same token for the same call differ")
                check(
                    all(m == (name, si) or s != sig for (n, m), s in self.passes.items() if n == number),
                    "the same pass for different calls",
                )
            check(len(set(numbers_now)) == len(numbers_now), "two passes of the same token in a call")
            check(
                len(numbers_now) == shares,
                "not as many passes as the price are shown",
                got=len(numbers_now),
                price=shares,
            )
            seen_numbers |= set(numbers_now)
            bad = set()
            if kind == "fail" and hasattr(value, "signature_check_failed"):
                bad = {numbers_now[i] for i in value.signature_check_failed}
            last = (kind, set(numbers_now), bad)
            if fate != "answer lost" and w.alive:
                self.settled |= bad
                if kind == "ok":
                    self.settled |= set(numbers_now)
        if attempts:
            # (a request which is lost may be on the wire only)
            check(shown == seen_numbers, "tokens are shown which are not part of a call")
        return got[0]

    def kept(self):
        return {raw(r[0])[:64] for r in zk.dump(self.path)["unblinded-tokens"]}

    def key(self):
        rows = zk.dump(self.path)
        state = []
        for i in (1, 2):
            try:
                v = self.controller.get_voucher(zk.voucher_number(i))
                state.append((v.state.to_json_v1()["name"], getattr(v.state, "counter", None)))
            except KeyError:
                state.append(None)
        cur = self.conn.cursor()
        used = {k: {v for r in rs for v in r} for k, rs in zk.dump(self.conn, temp=True).items() if k not in rows}
        cur.execute("select [token] from [unblinded-tokens] order by [rowid]")
        order = []
        for (text,) in cur.fetchall():
            n = raw(text)[:64]
            order.append(
                (self.origin.get(n), tuple(sorted(k for k in used if text in used[k])), n in self.settled, sum(1 for m, _ in self.passes if m == n))
            )
        return repr((state, order, len(rows["invalid-unblinded-tokens"]), self.pending(), self.kind, self.calls % 2))

    def close(self):
        self.conn.kill()
        zk.remove(self.path)
        for s in self.servers:
            s.close()


def make_histories(b):
    W01.keys()

    def scenario(ch):
        with Records() as records:
            world = World(b["groups"], b["tokens"])
            budget = dict(failures=b["failures"], restarts=b["restarts"], lost=b["lost"])
            ops = []
            try:
                for step in range(b["depth"]):
                    options = []
                    for i in (1, 2):
                        if i > sum(o.startswith("redeem") for o in ops):
                            options.append("redeem %d" % i)
                            break
                    if world.pending():
                        options.append("answer ok")
                        if budget["failures"]:
                            options += ["answer " + k for k in b["answers"]]
                    else:
                        if budget["failures"] < b["failures"]:
                            options.append("time")
                    if world.kept():
                        for s in (0, 1):
                            options += ["call %d %d ok" % (s, n) for n in b["prices"]]
                            if budget["lost"]:
                                options += ["call %d %d %s" % (s, n, f) for n in b["prices"] for f in ("request lost", "answer lost")]
                    if budget["restarts"] and ops:
                        options.append("restart")
                    if not options:
                        break
                    o = ch.pick(options, "next")
                    ops.append(o)
                    if o.startswith("redeem"):
                        d = Deferred.fromCoroutine(world.controller.redeem(zk.voucher_number(int(o[-1]))))
                        d.addErrback(lambda f: None)
                    elif o.startswith("answer"):
                        if o != "answer ok":
                            budget["failures"] -= 1
                        world.answer(o[7:])
                    elif o == "time":
                        world.issuer.reactor.advance(200)
                    elif o == "restart":
                        budget["restarts"] -= 1
                        world.restart()
                    else:
                        _, s, n, fate = o.split(" ", 3)
                        if fate != "ok":
                            budget["lost"] -= 1
                        r = world.call(int(s), int(n), fate)
                        ch.note(r)
                    world.learn()
                    world.secrets.absent(
                        "a log",
                        records.take(),
                        [
                            "a random token",
                            "the number of a token",
                            "a blinding factor",
                            "an unblinded token",
                            "the signed point of a token",
                            "a blinded token",
                            "a signed token",
                            "a signing key",
                        ],
                    )
                    ch.visit((b["depth"] - step, world.key(), repr(sorted(budget.items())), tuple(sorted(o for o in ops if o.startswith("redeem")))))
            finally:
                world.close()
            return ops[-1].rstrip("0123456789") if ops else ""

    return scenario


def make_replication(b):
    """
    The capabilities of the replica and the token of the HTTP API stay out of the logs.
    """

    def scenario(ch):
        grid = Grid()
        secrets = Secrets()
        secrets.add("the token of the HTTP API", TOKEN)
        budget = dict(b)
        with Records() as records:
            node = P05.Process(grid, plugin_config=["default-token-count = 16"])
            directory = node.dir
            used = []  # capabilities which the node has
            vouchers = 0
            last = ""
            try:
                node.up()
                for _ in range(b["depth"]):
                    options = []
                    if budget["requests"]:
                        options += ["replicate", "replicate, no token", "replicate, wrong token"]
                    if budget["vouchers"]:
                        options.append("voucher")
                    if node.tahoe.pending:
                        options.append("ok")
                        if budget["failures"]:
                            options += ["fail", "lost", "strange"]
                    if budget["recoveries"]:
                        options += ["recover", "recover odd", "recover whole"]
                    if budget["restarts"]:
                        options.append("restart")
                    if not options:
                        break
                    o = last = ch.pick(options, "next")
                    if o.startswith("replicate"):
                        budget["requests"] -= 1
                        token = {"replicate": TOKEN, "replicate, no token": None, "replicate, wrong token": TOKEN + "x"}[o]
                        conn = Connection(node.root)
                        conn.send(raw_request(b"POST", b"/replicate", token=token))
                    elif o == "voucher":
                        budget["vouchers"] -= 1
                        vouchers += 1
                        v = zk.voucher_number(vouchers).decode()
                        conn = Connection(node.root)
                        conn.send(raw_request(b"PUT", b"/voucher", JSON, json.dumps({"voucher": v}).encode()))
                    elif o.startswith("recover"):
                        budget["recoveries"] -= 1
                        reader = tc.SSKDirectoryWrite(
                            cap_object=tc.SSKWrite.derive(b"the other node's", b"f" * 32)
                        )
                        text = tc.danger_real_capability_string(
                            reader if o == "recover whole" else reader.reader
                        )
                        grid.dirs.setdefault(grid.key(reader.reader), {})
                        note(secrets, reader)
                        used.append(reader.reader)
                        if o == "recover odd":
                            text = text[:-3]
                        conn = Connection(node.root)
                        head = HANDSHAKE.replace(b"GET /", b"GET /recover").replace(
                            b"\r\n\r\n", b"\r\nAuthorization: tahoe-lafs " + TOKEN.encode() + b"\r\n\r\n"
                        )
                        conn.send(head)
                        assert b" 101 " in conn.received(), conn.received()
                        conn.transport.protocol.openHandshakeTimeoutCall = None
                        conn.transport.protocol.dataReceived(
                            frame(1, json.dumps({"recovery-capability": text}).encode())
                        )
                    elif o == "restart":
                        budget["restarts"] -= 1
                        for c in node.conns:
                            c.kill()
                        node = P05.Process(grid, directory, ["default-token-count = 16"])
                        node.up()
                    else:
                        op = node.tahoe.pending[0]
                        if o == "ok":
                            op.ok()
                        else:
                            budget["failures"] -= 1
                            (op.lost if o == "lost" else op.fail)(
                                ValueError("strange") if o == "strange" else error_with_capability(used, op)
                            )
                    for cap in node_capabilities(node):
                        note(secrets, cap)
                        if cap not in used:
                            used.insert(0, cap)
                    if node.conns:
                        rows = zk.dump(node.conns[0])
                        secrets.add("a random token", *[r[0] for r in rows["tokens"]])
                        secrets.add("an unblinded token", *[r[0] for r in rows["unblinded-tokens"]])
                    text = records.take()
                    secrets.absent("a log", text, sorted(secrets.values))
                return last
            finally:
                node.close()
                shutil.rmtree(directory, ignore_errors=True)

    return scenario


def node_capabilities(node):
    path = os.path.join(node.dir, "private", REPLICA_RWCAP_BASENAME)
    if os.path.exists(path):
        with open(path) as f:
            yield tc.writeable_directory_from_string(f.read())


def note(secrets, cap):
    """
    What the texts of the capabilities of a directory have in them that is secret.
    """
    for kind, c in (("a write capability", cap), ("a read capability", cap.reader)):
        key = tc.danger_real_capability_string(c).split(":")[2]
        secrets.add(kind, key)


def error_with_capability(caps, op):
    """
    What the real client raises: it has the address, and so the capability.
    """
    url = DecodedURL.from_text("http://127.0.0.1:3456/").child("uri")
    if caps:
        cap = caps[-1 if op.name == "download" else 0]
        if op.name == "list":
            cap = getattr(cap, "reader", cap)
        url = url.child(tc.danger_real_capability_string(cap))
    return TahoeAPIError("get", url, 500, "failed")


CHECK = Check(
    "U01",
    "model_checking",
    "all histories, up to the depth, of redemptions of two vouchers of two issuers, their answers (with and without failure), "
    "storage calls to two servers which accept the tokens of one of them (answered, request lost, answer lost) and "
    "restarts; every byte sent and every log event is searched for every secret in all its encodings; all histories of "
    "replication set-up, recovery, grid failures and restarts for the logs",
    [
        "the cryptography of challenge_bypass_ristretto is sound: a blinded token tells nothing about its token",
        "a secret is recognized as bytes, in hexadecimal, in base 64 at each alignment and as a literal",
    ],
    [
        Scenario(
            "histories",
            make_histories,
            dict(groups=2, tokens=4, depth=6, failures=1, restarts=1, lost=1, prices=[1, 2], answers=["unpaid", "lost", "proof", "odd", "refused"]),
            dict(groups=2, tokens=4, depth=8, failures=2, restarts=1, lost=1, prices=[1, 2], answers=["unpaid", "lost", "proof", "odd", "refused"]),
        ),
        Scenario(
            "replication",
            make_replication,
            dict(depth=5, requests=2, vouchers=1, failures=2, recoveries=1, restarts=1),
            dict(depth=6, requests=2, vouchers=1, failures=2, recoveries=1, restarts=1),
        ),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
