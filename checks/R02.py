"""
R02: only proven tokens are accepted from the issuer.
"""

import base64
import json
import os

from allmydata.client import config_from_string
from challenge_bypass_ristretto import (
    BatchDLEQProof,
    BlindedToken,
    PublicKey,
    RandomToken,
    TokenPreimage,
    VerificationSignature,
    random_signing_key,
)
from twisted.internet import error
from twisted.internet.defer import Deferred

from _zkapauthorizer.controller import PaymentController, RistrettoRedeemer
from _zkapauthorizer.model import NotEnoughTokens

from mc import http, zk
from mc.core import Pruned, check
from mc.runner import Check, Scenario

V = zk.voucher_number("r02")
SECTION = "storageclient.plugins.x"
_keys = {}


def keys():
    """
    Signing keys, made once per process: that of the issuer and another.
    """
    if os.getpid() not in _keys:
        _keys[os.getpid()] = (random_signing_key(), random_signing_key())
    return _keys[os.getpid()]


def public(k):
    return PublicKey.from_signing_key(k).encode_base64().decode()


def sign(key, blinded):
    """
    A genuine answer.
    """
    signed = [key.sign(b) for b in blinded]
    proof = BatchDLEQProof.create(key, blinded, signed)
    return {
        "success": True,
        "public-key": public(key),
        "signatures": [s.encode_base64().decode() for s in signed],
        "proof": proof.encode_base64().decode(),
    }


def flip(s, i):
    """Another base64 character there."""
    i %= len(s)
    return s[:i] + ("A" if s[i] != "A" else "B") + s[i + 1 :]


def low(s):
    """Other data of the same form: all zero, all one."""
    n = len(base64.b64decode(s))
    return [base64.b64encode(b"\0" * n).decode(), base64.b64encode(b"\xff" * n).decode()]


GONE = object()
WRONG = [GONE, None, 0, 1, True, [], {}, "", " ", "=", "A", "\u00e9", "\ud800", 1.5, ["x"], "A" * 43 + "="]
ERROR, SPENT, UNPAID, ACCEPT, EITHER = "error", "double-spend", "unpaid", "accepted", "either"


class Answers:
    """
    name -> function of the genuine answer and what is needed to make others, which
    gives (what to send, what should become of it).
    """

    def __init__(self, n, positions):
        self.table = {}
        a = self.add
        a("genuine", lambda g, x: (g, ACCEPT))
        for status in (201, 400, 402, 500):
            a("genuine, status %d" % status, lambda g, x, s=status: ((s, g), EITHER))
        # -- the success flag
        for i, w in enumerate([GONE, None, False, 0, "", [], {}]):
            a("success %d" % i, lambda g, x, w=w: (put(g, "success", w), ERROR))
            for reason, outcome in (("double-spend", SPENT), ("unpaid", UNPAID), ("other", ERROR)):
                a(
                    "success %d, %s" % (i, reason),
                    lambda g, x, w=w, r=reason, o=outcome: (put(put(g, "success", w), "reason", r), o),
                )
        for i, w in enumerate(["false", "no", 1, [False]]):
            a("success odd %d" % i, lambda g, x, w=w: (put(g, "success", w), EITHER))
        a("success and a reason", lambda g, x: (put(g, "reason", "double-spend"), EITHER))
        a("success only", lambda g, x: ({"success": True}, ERROR))
        # -- failures
        reasons = [
            ("double-spend", SPENT), ("unpaid", UNPAID), ("Unpaid", ERROR), ("unpaid ", ERROR), ("doublespend", ERROR),
            ("", ERROR), (None, ERROR), (0, ERROR), (["unpaid"], ERROR), ({"unpaid": 1}, ERROR), ("internal", ERROR), (GONE, ERROR),
            ("already-spent", ERROR),
        ]  # fmt: skip
        for i, (r, o) in enumerate(reasons):
            for status in (200, 400, 402, 409, 500):
                a("reason %d, status %d" % (i, status), lambda g, x, r=r, o=o, s=status: ((s, put({"success": False}, "reason", r)), o))
        # -- the key
        for i, w in enumerate(WRONG):
            a("key %d" % i, lambda g, x, w=w: (put(g, "public-key", w), ERROR))
            a("proof %d" % i, lambda g, x, w=w: (put(g, "proof", w), ERROR))
            a("signatures %d" % i, lambda g, x, w=w: (put(g, "signatures", w), ERROR))
        a("another key", lambda g, x: (put(g, "public-key", public(x["other"])), ERROR))
        a("a signature as key", lambda g, x: (put(g, "public-key", g["signatures"][0]), ERROR))
        for i in range(2):
            a("key weak %d" % i, lambda g, x, i=i: (put(g, "public-key", low(g["public-key"])[i]), ERROR))
            a("proof weak %d" % i, lambda g, x, i=i: (put(g, "proof", low(g["proof"])[i]), ERROR))
            a(
                "all weak %d" % i,
                lambda g, x, i=i: (
                    {
                        "success": True,
                        "public-key": low(g["public-key"])[i],
                        "signatures": [low(s)[i] for s in g["signatures"]],
                        "proof": low(g["proof"])[i],
                    },
                    ERROR,
                ),
            )
        for i in positions:
            # (the last character before the padding has unused bits)
            a("key bit %d" % i, lambda g, x, i=i: (put(g, "public-key", flip(g["public-key"], i)), ERROR))
            a("proof bit %d" % i, lambda g, x, i=i: (put(g, "proof", flip(g["proof"], i)), ERROR))
        for name in ("public-key", "proof"):
            a(name + " cut", lambda g, x, f=name: (put(g, f, g[f][:-4]), ERROR))
            a(name + " twice", lambda g, x, f=name: (put(g, f, g[f] * 2), ERROR))
            a(name + " space", lambda g, x, f=name: (put(g, f, g[f] + "\n"), EITHER))
            a(name + " bytes", lambda g, x, f=name: (put(g, f, list(g[f])), ERROR))
        # -- the proof
        a("proof of another batch", lambda g, x: (put(g, "proof", sign(x["key"], x["strangers"])["proof"]), ERROR))
        a("proof with another key", lambda g, x: (put(g, "proof", sign(x["other"], x["blinded"])["proof"]), ERROR))
        a("proof of fewer", lambda g, x: (put(g, "proof", sign(x["key"], x["blinded"][:-1] or x["strangers"])["proof"]), ERROR))
        # -- the signatures
        a("signatures of another batch", lambda g, x: (put(g, "signatures", sign(x["key"], x["strangers"])["signatures"]), ERROR))
        a("signatures with another key", lambda g, x: (put(g, "signatures", sign(x["other"], x["blinded"])["signatures"]), ERROR))
        a("answer for another batch", lambda g, x: (sign(x["key"], x["strangers"]), ERROR))
        a("answer with another key", lambda g, x: (sign(x["other"], x["blinded"]), "accepted, other key"))
        a("blinded tokens as signatures", lambda g, x: (put(g, "signatures", [b.encode_base64().decode() for b in x["blinded"]]), ERROR))
        if n > 1:
            a("signatures reversed", lambda g, x: (put(g, "signatures", g["signatures"][::-1]), ERROR))
            a("the first only, proven", lambda g, x: (sign(x["key"], x["blinded"][:1]), ERROR))
            a("all but the last, proven", lambda g, x: (sign(x["key"], x["blinded"][:-1]), ERROR))
            a("all but the first, proven", lambda g, x: (sign(x["key"], x["blinded"][1:]), ERROR))
            a("in another order, proven", lambda g, x: (sign(x["key"], x["blinded"][1:] + x["blinded"][:1]), ERROR))
            a("the first repeated, proven", lambda g, x: (sign(x["key"], x["blinded"][:1] * n), ERROR))
        a("one more, proven", lambda g, x: (sign(x["key"], x["blinded"] + x["strangers"][:1]), ERROR))
        a("all twice, proven", lambda g, x: (sign(x["key"], x["blinded"] * 2), ERROR))
        for i in range(n):

            def sigs(f, i=i):
                def make(g, x):
                    s = list(g["signatures"])
                    f(s, i, x)
                    return put(g, "signatures", s), ERROR

                return make

            a("signature %d dropped" % i, sigs(lambda s, i, x: s.pop(i)))
            a("signature %d twice" % i, sigs(lambda s, i, x: s.insert(i, s[i])))
            a("signature %d with another key" % i, sigs(lambda s, i, x: s.__setitem__(i, x["other"].sign(x["blinded"][i]).encode_base64().decode())))
            a("signature %d of a stranger" % i, sigs(lambda s, i, x: s.__setitem__(i, x["key"].sign(x["strangers"][0]).encode_base64().decode())))
            a("signature %d corrupt" % i, sigs(lambda s, i, x: s.__setitem__(i, flip(s[i], 5))))
            for k, w in enumerate([None, 0, "", [], "x", "\u00e9"]):
                a("signature %d wrong %d" % (i, k), sigs(lambda s, i, x, w=w: s.__setitem__(i, w)))
            for j in range(i):
                a("signatures %d and %d swapped" % (i, j), sigs(lambda s, i, x, j=j: s.__setitem__(slice(None), swap(s, i, j))))
                a("signature %d as %d" % (i, j), sigs(lambda s, i, x, j=j: s.__setitem__(j, s[i])))
                a("signature %d as %d too" % (j, i), sigs(lambda s, i, x, j=j: s.__setitem__(i, s[j])))
        # -- the document
        for i, d in enumerate([b"", b"null", b"true", b"1", b'"unpaid"', b"[]", b"{}", b"<html>unpaid</html>", b"\xff\xfe", b"[" * 3000]):
            a("document %d" % i, lambda g, x, d=d: (d, ERROR))
        a("in a list", lambda g, x: (json.dumps([g]).encode(), ERROR))
        a("garbage after", lambda g, x: (json.dumps(g).encode() + b"x", ERROR))
        a("white space", lambda g, x: (b"\n " + json.dumps(g, indent=3).encode() + b"\n", ACCEPT))
        a("more keys", lambda g, x: (put(g, "more", [1]), ACCEPT))
        a("two flags", lambda g, x: (b'{"success": false, ' + json.dumps(g).encode()[1:], EITHER))
        a("two flags, false", lambda g, x: (json.dumps(g).encode()[:-1] + b', "success": false}', EITHER))
        for k in range(16):
            a("cut at %d/16" % k, lambda g, x, k=k: ((lambda d: d[: len(d) * k // 16])(json.dumps(g).encode()), ERROR))
        # -- the connection
        for k in ("refused", "timeout", "lost", "lost in headers", "lost in body", "garbage"):
            a(k, lambda g, x, k=k: (k, ERROR))

    def add(self, name, f):
        assert name not in self.table, name
        self.table[name] = f


def put(g, k, v):
    g = dict(g)
    if v is GONE:
        g.pop(k, None)
    else:
        g[k] = v
    return g


def swap(s, i, j):
    s = list(s)
    s[i], s[j] = s[j], s[i]
    return s


class World:
    def __init__(self, groups, tokens, allowed, root):
        http.install()
        self.server = http.Server()
        self.root = root
        config = config_from_string(
            zk.scratch(), "tub.port", "[client]\n[%s]\nristretto-issuer-root-url = %s\n" % (SECTION, root)
        )
        self.redeemer = RistrettoRedeemer.make(SECTION, config, None, self.server.reactor)
        self.path = zk.new_db()
        self.conn = zk.open_conn(self.path)
        self.store = zk.make_store(self.conn)
        self.controller = PaymentController(
            self.server.reactor,
            self.store,
            self.redeemer,
            default_token_count=tokens,
            num_redemption_groups=groups,
            allowed_public_keys=allowed,
        )
        self.requests = []

    def request(self):
        """
        The next request to the issuer: the blinded tokens in it.
        """
        check(self.server.waiting() == 1, "not exactly one request to the issuer", waiting=self.server.waiting())
        ex = self.server.next()
        ex.accept()
        r = ex.request()
        check(
            r.complete
            and r.method == b"POST"
            and (ex.host, ex.port, r.path) == ("127.0.0.1", 8080, tuple(p for p in self.root.split("/")[3:] if p) + ("v1", "redeem"))
            and r.headers.get(b"content-type") == [b"application/json"],
            "the issuer is asked in the wrong way",
            path=r.path,
            method=r.method,
        )
        return ex, r.body

    def close(self):
        self.conn.kill()
        zk.remove(self.path)


def send(world, ex, answer):
    if isinstance(answer, str):
        whole = http.response(200, b'{"success": true}')
        if answer == "lost":
            ex.close(error.ConnectionLost())
        elif answer == "garbage":
            ex.send(b"garbage\r\n\r\n")
        elif answer == "lost in headers":
            ex.send(whole[:20])
            ex.close(error.ConnectionLost())
        else:
            ex.send(whole[:-3])
            ex.close(error.ConnectionLost())
        return
    status = 200
    if isinstance(answer, tuple):
        status, answer = answer
    if isinstance(answer, dict):
        answer = json.dumps(answer).encode()
    ex.send(http.response(status, answer))


def valid(world, key, tokens):
    """
    Are these tokens which a server with this key accepts?
    """
    message = b"a message"
    passes = world.redeemer.tokens_to_passes(message, tokens)
    check(len(passes) == len(tokens), "another number of passes than tokens")
    for p in passes:
        unblinded = key.rederive_unblinded_token(TokenPreimage.decode_base64(p.preimage))
        if unblinded.derive_verification_key_sha512().invalid_sha512(VerificationSignature.decode_base64(p.signature), message):
            return False
    return True


def redeem(b):
    positions = b["positions"]
    tables = {}

    def scenario(ch):
        n = 1 + ch.choose(b["tokens"], "tokens in a group")
        if n not in tables:
            tables[n] = Answers(n, positions).table
        group = ch.choose(2, "group")
        allowed = ch.pick(["issuer's", "other"], "configured key")
        first = ch.pick(list(tables[n]), "answer")
        second = ch.pick(["genuine"] + b["second"], "next answer") if group == 0 and n == 2 else "genuine"
        if allowed == "other" and not ("genuine" in first or "key" in first):
            raise Pruned()
        key, other = keys()
        world = World(2, 2 * n, {public(key if allowed == "issuer's" else other)}, b["root"])
        try:
            d = Deferred.fromCoroutine(world.controller.redeem(V))
            d.addErrback(lambda f: check(False, "redemption fails altogether", failure=repr(f)))
            submitted = {}
            used = {}  # group -> the key its tokens should be signed with
            script = {(group, 0): first, (group, 1): second}
            attempts = [0, 0]
            current = 0
            outcome = None
            for _ in range(12):
                if world.server.waiting() == 0:
                    break
                if script.get((current, attempts[current])) in ("refused", "timeout"):
                    answer = script[(current, attempts[current])]
                    attempts[current] += 1
                    world.server.next().refuse(None if answer == "refused" else error.TimeoutError())
                    outcome = ERROR
                else:
                    ex, body = world.request()
                    doc = json.loads(body)
                    check(
                        set(doc) == {"redeemVoucher", "redeemCounter", "redeemTokens"}
                        and doc["redeemVoucher"] == V.decode()
                        and doc["redeemCounter"] == current,
                        "the issuer is asked for something else",
                        got=doc,
                        want=current,
                    )
                    check(
                        submitted.setdefault(current, body) == body,
                        "what is submitted has changed since the last attempt",
                        group=current,
                        answers=(first, second),
                    )
                    blinded = [BlindedToken.decode_base64(t.encode()) for t in doc["redeemTokens"]]
                    check(len(blinded) == n, "the wrong number of tokens is submitted", got=len(blinded), want=n)
                    x = dict(key=key, other=other, blinded=blinded, strangers=[RandomToken.create().blind() for _ in range(n)])
                    name = script.get((current, attempts[current]), "genuine")
                    attempts[current] += 1
                    answer, outcome = tables[n][name](sign(key, blinded), x)
                    send(world, ex, answer)
                state = world.store.get(V).state
                name = world.controller.get_voucher(V).state.to_json_v1()["name"]
                done = 2 if name == "redeemed" else 0 if name == "double-spend" else state.counter
                where = dict(answers=(first, second), group=current, state=name, groups=done)
                if outcome == EITHER:
                    # but if it was accepted then truly
                    outcome = ACCEPT if done > current else ERROR
                    name = name if outcome == ACCEPT else ERROR
                if outcome.startswith(ACCEPT):
                    check(done == current + 1, "a proven answer is not accepted", **where)
                    used[current] = other if "other" in outcome else key
                    current += 1
                elif outcome == SPENT:
                    check(name == "double-spend", "the answer is not reported as already redeemed", **where)
                    break
                else:
                    check(done == current, "an answer which is not proven is accepted", **where)
                    check(name == outcome, "the answer is reported wrongly", want=outcome, **where)
                rows = zk.dump(world.path)["unblinded-tokens"]
                check(len(rows) == n * len(used), "the wrong number of tokens is stored", rows=len(rows), **where)
                spendable = sum(n for k in used.values() if (k is key) == (allowed == "issuer's"))
                check(
                    world.store.count_unblinded_tokens() == spendable,
                    "tokens can be spent although (or cannot because) their key is not configured",
                    count=world.store.count_unblinded_tokens(),
                    want=spendable,
                    **where
                )
                if current == 2:
                    break
                if world.server.waiting() == 0:
                    world.server.reactor.advance(1)
            if outcome == SPENT:
                world.server.reactor.advance(5)
                check(world.server.waiting() == 0, "an already redeemed voucher is tried again")
                check(len(zk.dump(world.path)["unblinded-tokens"]) == n * len(used), "the wrong number of tokens is stored")
            else:
                check(current == 2, "a voucher is never redeemed", answers=(first, second), state=name)
                good = sum(n for k in used.values() if (k is key) == (allowed == "issuer's"))
                if good:
                    tokens = world.store.get_unblinded_tokens(good)
                    check(len(set(tokens)) == good, "the same token is stored twice")
                    check(
                        valid(world, key if allowed == "issuer's" else other, tokens),
                        "a stored token is not valid",
                        answers=(first, second),
                    )
            return "%s then %s" % (first.rstrip("0123456789/ "), outcome)
        finally:
            world.close()

    return scenario


SECOND = ["reason 0, status 400", "reason 1, status 400", "refused", "answer with another key", "proof with another key", "document 0"]

CHECK = Check(
    "R02",
    "exploration",
    "every single change of the enumerated kinds to a genuine answer of the issuer (flag, reason, key, each signature, "
    "proof, document, HTTP status, connection), for each group and number of tokens, through the real redeemer, HTTP client "
    "and cryptography; then further answers until the voucher is redeemed or spent; stored tokens are verified with the "
    "signing key, requests compared byte for byte",
    [
        "the cryptography of challenge_bypass_ristretto is sound",
        "answers which are odd but not contradictory (a truthy flag which is not true, a genuine answer with an error status) "
        "may be taken either way",
    ],
    [
        Scenario(
            "redeem",
            redeem,
            dict(tokens=3, positions=[0, 1, 2, 10, 20, 41], second=SECOND[:3], root="http://127.0.0.1:8080/"),
            dict(tokens=5, positions=list(range(42)), second=SECOND, root="http://127.0.0.1:8080/"),
        ),
        Scenario(
            "deep-root",
            redeem,
            dict(tokens=1, positions=[0], second=[], root="http://127.0.0.1:8080/a/b"),
        ),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
