"""
H02: the voucher API stores valid vouchers once and reports their true state.
"""

import datetime
import json
import re
import sqlite3
from urllib.parse import quote

import attr
from allmydata.client import config_from_string
from twisted.internet.defer import Deferred
from twisted.internet.task import Clock
from zope.interface import implementer

from _zkapauthorizer import NAME
from _zkapauthorizer.controller import AlreadySpent, IRedeemer, RedemptionResult, Unpaid
from _zkapauthorizer.model import DoubleSpend, Error, Pending, Redeemed, Redeeming, Voucher
from _zkapauthorizer.model import Unpaid as UnpaidState
from _zkapauthorizer.resource import from_configuration

from mc import zk
from mc.core import check
from mc.node import TOKEN, request
from mc.runner import Check, Scenario

KEY = "KEY"
GROUPS = 16
V = zk.voucher_number("h02").decode()
W = zk.voucher_number("h02/other").decode()
UTC = datetime.timezone.utc


@implementer(IRedeemer)
class Redeemer:
    def __init__(self):
        self.outstanding = []

    def random_tokens_for_voucher(self, voucher, counter, count):
        return [zk.random_token("%r/%d/%d" % (voucher.number, counter, i)) for i in range(count)]

    def redeemWithCounter(self, voucher, counter, random_tokens):
        d = Deferred()
        self.outstanding.append((voucher.number.decode("ascii"), counter, random_tokens, d))
        return d

    def tokens_to_passes(self, message, unblinded_tokens):
        return [zk.pass_for(t.unblinded_token, message) for t in unblinded_tokens]


class World:
    """
    The real resource tree on a real store; the issuer is a stand-in.
    """

    def __init__(self, tokens=GROUPS, hook=None):
        self.path = zk.new_db()
        self.tokens = tokens
        self.time = zk.NOW
        self.conn = None
        self.config = config_from_string(
            zk.scratch(),
            "tub.port",
            "[client]\n[storageclient.plugins.%s]\nallowed-public-keys = %s\ndefault-token-count = %d\n"
            % (NAME, KEY, tokens),
        )
        self.config.get_private_config = lambda name: TOKEN
        self.start()

    def start(self, hook=None):
        if self.conn is not None:
            self.conn.kill()
        self.conn = zk.open_conn(self.path)
        self.conn.hook = hook
        self.clock = Clock()
        self.redeemer = Redeemer()
        store = zk.make_store(self.conn, now=lambda: self.time)
        self.root = from_configuration(self.config, store, None, None, self.redeemer, self.clock)

    def put(self, body, headers=((b"Content-Type", b"application/json"),)):
        return request(self.root, b"PUT", b"/voucher", headers, body)

    def get(self, path):
        return request(self.root, b"GET", path)

    def listing(self):
        r = self.get(b"/voucher")
        check(r is not None and r.status == 200, "the vouchers cannot be listed", response=repr(r))
        doc = r.json()
        check(set(doc) == {"vouchers"}, "the voucher list has the wrong form", answer=doc)
        out = {v["number"]: v for v in doc["vouchers"]}
        check(len(out) == len(doc["vouchers"]), "a voucher is listed twice", answer=doc)
        return out

    def read(self, numbers):
        """
        What the interface says of every voucher, by list and by number.
        """
        listed = self.listing()
        check(set(listed) <= set(numbers), "an unknown voucher is listed", listed=sorted(listed))
        for number in numbers:
            r = self.get(b"/voucher/" + number.encode())
            if number in listed:
                check(
                    r.status == 200 and r.json() == listed[number],
                    "a voucher read by number differs from the list",
                    response=repr(r),
                    listed=listed[number],
                )
                v = Voucher.from_json(r.body)
                check(
                    json.loads(v.to_json()) == r.json() and v == self.root.controller.get_voucher(number.encode()),
                    "a voucher is changed by its JSON form",
                    json=r.json(),
                    again=v.to_json(),
                )
            else:
                check(r.status == 404, "a voucher which is not listed is not NOT FOUND", response=repr(r))
        return listed

    def durable(self):
        return zk.dump(self.path)

    def close(self):
        self.conn.kill()
        zk.remove(self.path)


# ------------------------------------------------------------------ documents

GOOD = re.compile(r"\A[A-Za-z0-9_-]{43}=\Z")
# Unusual forms of base64: not what any payment server issues.
EITHER = re.compile(r"\A([A-Za-z0-9_-]{44}|[A-Za-z0-9_-]{42}==)\Z")


def pad(c):
    return c * 43 + "="


STRINGS = [
    V, pad("A"), pad("-"), pad("_"), pad("9"), pad("z"), "-_" * 21 + "A=", "A" * 44, "A" * 42 + "==",
    "", "=", "A", V[:-1], V[1:], V[:-2] + "=", V + "=", V + "A", "A" + V, V[:-1] + "==", V + "\n", "\n" + V, V[:-1] + "\n",
    V[:-1] + " ", " " + V[1:], V[:20] + " " + V[21:], "+" + V[1:], "/" + V[1:], V[:42] + "/=", V[:20] + "+" + V[21:],
    "=" + V[1:], V[:20] + "=" + V[21:], V[:41] + "===", "=" * 44, V[:20] + "\u00e9" + V[21:], "\uff21" + V[1:],
    "\ud800" + V[1:], "\U0001f600" + V[1:], V[:20] + "\0" + V[21:], V[:-1] + "\0", "\ufeff" + V, "\ufeff" + V[1:],
    "%41" + V[3:], "../" + V[3:], "'" + V[1:], '"' + V[1:], "\\" + V[1:], V[:20] + ";" + V[21:], "." + V[1:], "~" + V[1:],
    V * 2, "A" * 5000, "A" * 4999 + "=", "A" * 32, "00" * 22,
]
OTHERS = [
    None, True, False, 0, 44, -1, 1.5, 10 ** 43, 10 ** 400, float("nan"), float("inf"), [], [V], [V] * 44, list(V), {}, {"voucher": V},
    {c: c for c in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQR"},
]
KEYS = ["Voucher", "vouchers", "voucher ", "", "number", "version"]


def documents():
    """
    name -> (body, is it well formed; ``None``: either way)
    """
    out = {}

    def j(o):
        return json.dumps(o).encode()

    def good(s):
        if not isinstance(s, str):
            return False
        return True if GOOD.match(s) else (None if EITHER.match(s) else False)

    for i, s in enumerate(STRINGS + OTHERS):
        out["value %d" % i] = (j({"voucher": s}), good(s))
        out["extra key %d" % i] = (j({"voucher": s, "x": 1}), False)
        out["bare %d" % i] = (j(s), s == {"voucher": V})
        out["list %d" % i] = (j([{"voucher": s}]), False)
        out["escaped %d" % i] = (
            b'{"\\u0076oucher": %s}'
            % (b'"%s"' % "".join("\\u%04x" % ord(c) for c in s if ord(c) < 65536).encode() if isinstance(s, str) else j(s)),
            good("".join(c for c in s if ord(c) < 65536)) if isinstance(s, str) else False,
        )
    for k in KEYS:
        out["key %r" % k] = (j({k: V}), False)
    plain = j({"voucher": V})
    for n in range(len(plain)):
        out["truncated %d" % n] = (plain[:n], False)
    for name, body, ok in [
        ("white space", b' \r\n\t{ "voucher" \n:\t"%s" }\r\n ' % V.encode(), True),
        ("garbage after", plain + b"x", False),
        ("two documents", plain + plain, False),
        ("garbage before", b"x" + plain, False),
        ("zero byte after", plain + b"\0", False),
        ("single quotes", plain.replace(b'"', b"'"), False),
        ("trailing comma", plain[:-1] + b",}", False),
        ("comment", plain + b" // comment", False),
        ("no quotes", b"{voucher: %s}" % V.encode(), False),
        ("raw newline", plain.replace(b'": "', b'": "\n'), False),
        ("the same key twice", b'{"voucher": "%s", "voucher": "%s"}' % (V.encode(), V.encode()), None),
        ("two vouchers", b'{"voucher": "%s", "voucher": "%s"}' % (W.encode(), V.encode()), None),
        ("bad, then good", b'{"voucher": 1, "voucher": "%s"}' % V.encode(), None),
        ("good, then bad", b'{"voucher": "%s", "voucher": 1}' % V.encode(), None),
        ("byte order mark", b"\xef\xbb\xbf" + plain, None),
        ("utf-16", plain.decode().encode("utf-16"), None),
        ("utf-16-be", plain.decode().encode("utf-16-be"), None),
        ("utf-32", plain.decode().encode("utf-32"), None),
        ("invalid utf-8", plain.replace(V[:1].encode(), b"\xff", 1), False),
        ("invalid utf-8 after", plain + b"\xff", False),
        ("overlong utf-8", plain.replace(V[:1].encode(), b"\xc1\x81", 1), False),
        ("form", b"voucher=" + V.encode(), False),
        ("voucher only", V.encode(), False),
        ("deep list", b"[" * 100000, False),
        ("deep list, closed", b"[" * 100000 + b"]" * 100000, False),
        ("deep object", b'{"voucher":' * 20000 + b"1" + b"}" * 20000, False),
        ("big number", b'{"voucher": ' + b"9" * 10000 + b"}", False),
    ]:
        out[name] = (body, ok)
    return out


DOCS = documents()


def bodies(b):
    names = list(DOCS)

    def scenario(ch):
        part = ch.choose(b["parts"], "part of the documents")
        known = bool(ch.choose(2, "another voucher is known"))
        counts = {True: 0, False: 0}
        for name in names[part :: b["parts"]]:
            body, ok = DOCS[name]
            world = World()
            try:
                if known:
                    check(world.put(b'{"voucher": "%s"}' % W.encode()).status == 200, "a valid voucher is refused")
                before = world.durable()
                outstanding = len(world.redeemer.outstanding)
                where = dict(document=name, body=body[:200])
                for again in range(2):
                    world.time += datetime.timedelta(seconds=1)
                    r = world.put(body)
                    check(r is not None, "a request is not answered", **where)
                    after = world.durable()
                    accepted = r.status == 200
                    if ok is not None:
                        check(accepted == ok, "accepted" if accepted else "refused", response=repr(r), **where)
                    listed = world.listing()
                    want = {W} if known else set()
                    if not accepted:
                        check(400 <= r.status < 500, "a bad request is not reported as such", response=repr(r), **where)
                        check(
                            after == before and set(listed) == want,
                            "a refused request changes something",
                            response=repr(r),
                            **where
                        )
                        check(
                            len(world.redeemer.outstanding) == outstanding,
                            "a refused voucher is redeemed",
                            **where
                        )
                        continue
                    new = set(listed) - want
                    if ok:
                        doc = json.loads(body)["voucher"]
                        check(new == {doc}, "another voucher was stored than submitted", stored=sorted(new), **where)
                    check(len(new) <= 1, "several vouchers were stored", stored=sorted(new), **where)
                    for v in new:
                        check(
                            listed[v]["created"] == (zk.NOW + datetime.timedelta(seconds=1)).isoformat()
                            and listed[v]["expected-tokens"] == world.tokens
                            and listed[v]["version"] == 1,
                            "a new voucher is described wrongly",
                            listed=listed[v],
                            **where
                        )
                    if again:
                        check(after == first, "submitting a voucher again changes something", **where)
                    first = after
                world.start()
                check(
                    {v: d["created"] for v, d in world.listing().items()} == {v: d["created"] for v, d in listed.items()},
                    "the vouchers change with a restart",
                    **where
                )
                counts[accepted] += 1
            finally:
                world.close()
        return "accepted %d refused %d" % (counts[True], counts[False])

    return scenario


def paths(b):
    """
    Reading anything by number.
    """

    def scenario(ch):
        s = ch.pick(
            STRINGS + [b"\xff" * 44, b"\xff", b"\xc3(" + V[2:].encode(), b"%", b"%4", b"%zz", V.encode() + b"%ff", b"\xed\xa0\x80"],
            "segment",
        )
        form = ch.pick(["quoted", "all quoted", "slash", "child", "query"], "form")
        raw = s if isinstance(s, bytes) else s.encode("utf-8", "surrogatepass")
        if form == "all quoted":
            seg = "".join("%%%02X" % c for c in raw).encode()
        else:
            seg = quote(raw, safe="").encode()
        path = b"/voucher/" + seg + {"slash": b"/", "child": b"/x", "query": b"?t=json"}.get(form, b"")
        world = World()
        try:
            world.put(b'{"voucher": "%s"}' % V.encode())
            before = world.durable()
            for method in (b"GET", b"HEAD", b"PUT", b"POST", b"DELETE"):
                r = request(world.root, method, path, (), b'{"voucher": "%s"}' % W.encode() if method != b"GET" else b"")
                where = dict(method=method, path=path, response=repr(r))
                check(r is not None and r.status < 500 or r.status == 501, "a request is not answered properly", **where)
                check(world.durable() == before, "a request to a voucher changes something", **where)
                if method == b"GET" and form not in ("slash", "child") and seg != b"":
                    text = s if isinstance(s, str) else None
                    if text == V:
                        check(
                            r.status == 200 and r.json() == world.listing()[V],
                            "a known voucher cannot be read by number",
                            **where
                        )
                    elif text is not None and GOOD.match(text):
                        check(r.status == 404, "an unknown voucher is not NOT FOUND", **where)
                    else:
                        check(r.status in (400, 404), "a malformed voucher is not refused", **where)
            return "ok"
        finally:
            world.close()

    return scenario


# ------------------------------------------------------------------ faults


def faults(b):
    """
    Storage fails, or the process dies, while a voucher is being submitted.
    """

    def scenario(ch):
        world = World()
        budget = {"fault": b["faults"], "crash": 1}
        answer = ch.pick(["later", "ok", "double", "unpaid", "error"], "issuer")
        try:
            if ch.choose(2, "another voucher is known"):
                world.put(b'{"voucher": "%s"}' % W.encode())

            def hook(kind, sql):
                options = ["-"] + (["fault"] if budget["fault"] and kind != "committed" else [])
                options += ["crash"] if budget["crash"] else []
                o = ch.pick(options, "%s %s" % (kind, sql.split()[:1]))
                if o == "-":
                    return
                budget[o] -= 1
                if o == "crash":
                    raise zk.Crash()
                if kind == "commit":
                    sqlite3.Connection.rollback(world.conn)
                raise sqlite3.OperationalError("database or disk is full")

            if answer != "later":
                # the answers arrive while the request is still being served
                def redeem(voucher, counter, tokens):
                    if counter and answer != "ok" or counter > 1:
                        return Deferred()
                    return {
                        "ok": lambda: _ok(tokens),
                        "double": lambda: _fail(AlreadySpent(voucher)),
                        "unpaid": lambda: _fail(Unpaid(voucher)),
                        "error": lambda: _fail(Exception("no")),
                    }[answer]()

                world.redeemer.redeemWithCounter = redeem
            known = set(world.listing())
            statuses = []
            for i in range(3):
                world.conn.hook = hook if i < 2 else None
                try:
                    r = world.put(b'{"voucher": "%s"}' % V.encode())
                except zk.Crash:
                    r = None
                world.conn.hook = None
                rows = {row[0] for row in world.durable()["vouchers"]}
                check(known <= rows <= known | {V}, "submitting a voucher changes another", rows=rows)
                if world.conn.dead:
                    statuses.append("died")
                    world.start()
                else:
                    statuses.append(r.status)
                    check(r.status in (200, 500), "a voucher is answered strangely", response=repr(r))
                    if r.status == 200:
                        check(V in rows, "a voucher was accepted but not stored", statuses=statuses)
                    elif answer == "later":
                        check(V not in rows, "a stored voucher was reported as refused", statuses=statuses)
                    check(
                        set(world.listing()) == rows, "the list is not what is stored", listed=sorted(world.listing()), rows=rows
                    )
                known |= rows
            check(statuses[-1] == 200 and V in rows, "a voucher is refused for good", statuses=statuses)
            world.start()
            world.read([V, W])
            return str(statuses)
        finally:
            world.close()

    return scenario


def _ok(tokens):
    d = Deferred()
    d.callback(RedemptionResult([zk.unblinded_token(t.token_value.decode()) for t in tokens], KEY))
    return d


def _fail(e):
    d = Deferred()
    d.errback(e)
    return d


# ------------------------------------------------------------------ histories


def histories(b):
    def scenario(ch):
        world = World(b["tokens"])
        group = lambda i: b["tokens"] // GROUPS + (1 if i < b["tokens"] % GROUPS else 0)
        model = {}  # number -> what the interface should say
        durable = {}  # number -> what it should say after a restart
        budget = {"put": b["puts"], "restart": b["restarts"], "answer": b["answers"], "tick": b["ticks"], "bad": 1}
        total = [0]

        def now():
            return world.time.isoformat()

        def attempt(number):
            """A request is made to the issuer."""
            model[number]["state"] = {
                "name": "redeeming",
                "started": now(),
                "counter": durable[number]["state"]["counter"],
            }

        def retriable(number):
            return model[number]["state"]["name"] in ("pending", "unpaid", "error")

        def answer(number, what, tokens, d):
            done = durable[number]["state"]
            if what == "ok":
                done["counter"] += 1
                total[0] += group(done["counter"] - 1)
                if done["counter"] == GROUPS:
                    durable[number]["state"] = {"name": "redeemed", "finished": now(), "token-count": b["tokens"]}
                    model[number]["state"] = dict(durable[number]["state"])
                else:
                    attempt(number)
                d.callback(RedemptionResult([zk.unblinded_token(t.token_value.decode()) for t in tokens], KEY))
            elif what == "double":
                durable[number]["state"] = {"name": "double-spend", "finished": now()}
                model[number]["state"] = dict(durable[number]["state"])
                d.errback(AlreadySpent(number))
            elif what == "unpaid":
                model[number]["state"] = {"name": "unpaid", "finished": now()}
                d.errback(Unpaid(number))
            else:
                model[number]["state"] = {"name": "error", "finished": now(), "details": "issuer said \u201cno\u201d"}
                d.errback(Exception("issuer said \u201cno\u201d"))

        def key():
            return (
                json.dumps([model, durable], sort_keys=True),
                sorted(budget.items()),
                zk.dump(world.path),
                zk.fingerprint(world.root.controller),
                [(r[0], r[1]) for r in world.redeemer.outstanding],
                world.time.isoformat(),
            )

        try:
            for _ in range(b["depth"]):
                events = ["stop"]
                if budget["put"]:
                    # the vouchers are symmetric
                    events += [("put", V), ("put", W)] if model else [("put", V)]
                    if budget["bad"]:
                        events.append(("put", V[:-1] + "!"))
                if budget["answer"]:
                    for i, (number, counter, tokens, d) in enumerate(world.redeemer.outstanding):
                        events += [("answer", i, what) for what in ("ok", "all", "unpaid", "error", "double")]
                if budget["tick"] and any(retriable(n) for n in model):
                    events.append(("tick",))
                if budget["restart"] and model:
                    events.append(("restart",))
                ev = ch.pick(events, "event")
                if ev == "stop":
                    break
                world.time += datetime.timedelta(seconds=1, microseconds=1)
                if ev[0] == "put":
                    budget["put"] -= 1
                    number = ev[1]
                    good = bool(GOOD.match(number))
                    if good:
                        if number not in model:
                            model[number] = {
                                "number": number,
                                "expected-tokens": b["tokens"],
                                "created": now(),
                                "version": 1,
                                "state": {"name": "pending", "counter": 0},
                            }
                            durable[number] = json.loads(json.dumps(model[number]))
                        if retriable(number):
                            attempt(number)
                    else:
                        budget["bad"] -= 1
                    r = world.put(json.dumps({"voucher": number}).encode())
                    check((r.status == 200) == good, "a voucher is answered wrongly", number=number, response=repr(r))
                elif ev[0] == "answer":
                    budget["answer"] -= 1
                    number, counter, tokens, d = world.redeemer.outstanding.pop(ev[1])
                    if ev[2] == "all":
                        answer(number, "ok", tokens, d)
                        while True:
                            mine = [i for i, r in enumerate(world.redeemer.outstanding) if r[0] == number]
                            if not mine:
                                break
                            number, counter, tokens, d = world.redeemer.outstanding.pop(mine[0])
                            answer(number, "ok", tokens, d)
                    else:
                        answer(number, ev[2], tokens, d)
                elif ev[0] == "tick":
                    budget["tick"] -= 1
                    for number in model:
                        if retriable(number):
                            attempt(number)
                    world.clock.advance(1)
                else:
                    budget["restart"] -= 1
                    for number in durable:
                        model[number] = json.loads(json.dumps(durable[number]))
                        if model[number]["state"]["name"] == "pending":
                            attempt(number)
                    world.start()
                if not ch.replaying:
                    got = world.read([V, W])
                    check(got == model, "the interface reports another state than the true one", got=got, true=model)
                    r = world.get(b"/lease-maintenance").json()
                    check(r["total"] == total[0], "the number of tokens is reported wrongly", got=r, true=total[0])
                ch.visit(key)
            return ",".join(sorted(m["state"]["name"] for m in model.values()))
        finally:
            world.close()

    return scenario


# ------------------------------------------------------------------ JSON and storage

TIMES = [
    datetime.datetime(2024, 1, 2, 3, 4, 5, 6, UTC),
    datetime.datetime(2024, 1, 2, 3, 4, 5, 0, UTC),
    datetime.datetime(2024, 2, 29, 0, 0, 0, 100000, UTC),
    datetime.datetime(1970, 1, 1, 0, 0, 0, 0, UTC),
    datetime.datetime(1999, 12, 31, 23, 59, 59, 999999, UTC),
    datetime.datetime(9999, 12, 31, 23, 59, 59, 999999, UTC),
    datetime.datetime(2024, 10, 27, 1, 30, 0, 0, UTC),
    datetime.datetime(2024, 10, 27, 2, 30, 0, 5, datetime.timezone(datetime.timedelta(hours=2))),
    datetime.datetime(2024, 1, 1, 0, 0, 0, 0, datetime.timezone(-datetime.timedelta(hours=9, minutes=30))),
]
DETAILS = ["", "x", '"quoted"\\', "\u00e9\u20ac\U0001f600", "a\nb\0", "x" * 5000]


def states(b):
    def scenario(ch):
        created = ch.pick([None] + TIMES, "created")
        name = ch.pick(["pending", "redeeming", "redeemed", "double-spend", "unpaid", "error"], "state")
        when = None if name == "pending" else ch.pick(TIMES, "when")
        n = ch.pick([0, 1, 15, 2 ** 15, 2 ** 31, 2 ** 63 - 1], "number") if name in ("pending", "redeeming", "redeemed") else None
        details = ch.pick(DETAILS, "details") if name == "error" else None
        expected = {"expected": ch.pick([1, 16, 2 ** 15, 2 ** 63 - 1], "expected")}["expected"]
        state = {
            "pending": lambda: Pending(n),
            "redeeming": lambda: Redeeming(when, n),
            "redeemed": lambda: Redeemed(when, n),
            "double-spend": lambda: DoubleSpend(when),
            "unpaid": lambda: UnpaidState(when),
            "error": lambda: Error(when, details),
        }[name]()
        v = Voucher(V.encode(), expected, created, state)
        doc = v.to_json()
        back = Voucher.from_json(doc)
        check(back == v, "a voucher is changed by its JSON form", voucher=repr(v), back=repr(back))
        raw = json.loads(doc)
        want = {"name": name}
        if name == "redeeming":
            want.update(started=when.isoformat(), counter=n)
        elif name == "pending":
            want.update(counter=n)
        elif name == "redeemed":
            want.update({"token-count": n})
        if name in ("redeemed", "double-spend", "unpaid", "error"):
            want.update(finished=when.isoformat())
        if name == "error":
            want.update(details=details)
        check(
            raw
            == {
                "version": 1,
                "number": V,
                "expected-tokens": expected,
                "created": None if created is None else created.isoformat(),
                "state": want,
            },
            "the JSON form of a voucher is not as documented",
            json=raw,
        )
        return name

    return scenario


def storage(b):
    """
    Every durable state, at every time, through the store and a restart.
    """

    def scenario(ch):
        created = ch.pick(TIMES, "created")
        name = ch.pick(["pending", "redeemed", "double-spend"], "state")
        when = ch.pick(TIMES, "when")
        groups = ch.choose(b["groups"] + 1, "groups redeemed before")
        path = zk.new_db()
        time = [created]
        try:
            conn = zk.open_conn(path)
            store = zk.make_store(conn, now=lambda: time[0])
            number = V.encode()
            for i in range(groups + 1):
                store.add(number, 7, i, lambda: [zk.random_token("h02/%d/%d" % (i, j)) for j in range(2)])
                if i < groups:
                    store.insert_unblinded_tokens_for_voucher(
                        number, KEY, [zk.unblinded_token("h02/%d/%d" % (i, j)) for j in range(2)], completed=False, spendable=True
                    )
            time[0] = when
            want = Pending(groups)
            if name == "redeemed":
                store.insert_unblinded_tokens_for_voucher(
                    number, KEY, [zk.unblinded_token("h02/last/%d" % j) for j in range(3)], completed=True, spendable=True
                )
                want = Redeemed(when, 2 * groups + 3)
            elif name == "double-spend":
                store.mark_voucher_double_spent(number)
                want = DoubleSpend(when)
            want = Voucher(number, 7, created, want)
            for restarted in range(2):
                if restarted:
                    conn.kill()
                    conn = zk.open_conn(path)
                    store = zk.make_store(conn, now=lambda: time[0])
                check(
                    store.get(number) == want and store.list() == [want],
                    "a voucher is changed by storage",
                    want=repr(want),
                    got=repr(store.get(number)),
                    listed=repr(store.list()),
                )
            return name
        finally:
            conn.kill()
            zk.remove(path)

    return scenario


CHECK = Check(
    "H02",
    "model_checking",
    "every document and path of the alphabets is sent to the real resource tree; every failure of a write or commit and "
    "every crash point while a voucher is submitted; every history of submissions, issuer answers, retries and restarts "
    "within the bounds is compared with a reference of the documented states, over HTTP; every voucher state through its "
    "JSON form and through storage",
    ["SQLite commits are atomic", "the 44 character forms of base64 other than 43 characters and '=' may be accepted or not"],
    [
        Scenario("bodies", bodies, dict(parts=24)),
        Scenario("paths", paths, {}),
        Scenario("faults", faults, dict(faults=1), dict(faults=2)),
        Scenario(
            "histories",
            histories,
            dict(depth=5, puts=3, answers=3, ticks=1, restarts=1, tokens=35),
            dict(depth=8, puts=4, answers=5, ticks=2, restarts=2, tokens=35),
        ),
        Scenario("states", states, {}),
        Scenario("storage", storage, dict(groups=2), dict(groups=4)),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
