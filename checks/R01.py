"""
R01: voucher redemption conserves value over every schedule of issuer answers,
retries, re-submissions, crashes and restarts.
"""

import sqlite3

from twisted.internet.defer import Deferred
from twisted.internet.task import Clock
from zope.interface import implementer

from _zkapauthorizer.controller import (
    AlreadySpent,
    IRedeemer,
    PaymentController,
    RedemptionResult,
    Unpaid,
)

from _zkapauthorizer.model import NotEnoughTokens

from mc import zk
from mc.core import Pruned, Violation, check
from mc.runner import Check, Scenario

KEY = "allowed-key"
BADKEY = "other-key"


def partition(n, groups, i):
    """Reference: how many of n tokens belong to group i."""
    return n // groups + (1 if i < n % groups else 0)


class Issuer:
    """
    The remote payment server: idempotent for identical (voucher, counter, tokens),
    double-spend for a (voucher, counter) already redeemed with other tokens.
    """

    def __init__(self, groups, totals):
        self.groups = groups
        self.totals = totals
        self.done = {}  # (voucher, counter) -> tuple of tokens
        self.external = set()
        self.generations = {}
        self.outstanding = []  # [(voucher, counter, tokens, deferred)]
        self.requests = 0

    def state(self):
        return (
            sorted(self.done.items()),
            sorted(self.external),
            sorted(self.generations.items()),
            [(v, c, t) for (v, c, t, _) in self.outstanding],
        )


@implementer(IRedeemer)
class SimRedeemer:
    def __init__(self, issuer):
        self.issuer = issuer

    def random_tokens_for_voucher(self, voucher, counter, count):
        k = (voucher.number, counter)
        g = self.issuer.generations.get(k, 0)
        self.issuer.generations[k] = g + 1
        return [
            zk.random_token("%s/%d/%d/%d" % (voucher.number.decode(), counter, g, i))
            for i in range(count)
        ]

    def redeemWithCounter(self, voucher, counter, random_tokens):
        issuer = self.issuer
        issuer.requests += 1
        tokens = tuple(t.token_value for t in random_tokens)
        num = voucher.number
        check(
            not any(v == num for (v, _, _, _) in issuer.outstanding),
            "two redemption requests for one voucher are outstanding at once",
            voucher=num,
        )
        check(
            0 <= counter < issuer.groups,
            "redemption of a group outside the range",
            counter=counter,
        )
        check(
            len(tokens) == partition(issuer.totals[num], issuer.groups, counter),
            "group submitted with the wrong number of random tokens",
            counter=counter,
            got=len(tokens),
            total=issuer.totals[num],
        )
        check(len(set(tokens)) == len(tokens), "duplicate random tokens in a group")
        prev = issuer.done.get((num, counter))
        check(
            prev is None or prev == tokens,
            "a redeemed group was submitted again with other random tokens or in "
            "another order "
            "(the issuer answers double-spend: the value is lost)",
            counter=counter,
            voucher=num,
        )
        for k, ts in issuer.done.items():
            if k != (num, counter):
                check(
                    not (set(ts) & set(tokens)),
                    "random tokens reused for two groups",
                    first=k,
                    second=(num, counter),
                )
        d = Deferred()
        issuer.outstanding.append((num, counter, tokens, d))
        return d

    def tokens_to_passes(self, message, unblinded_tokens):
        return [zk.pass_for(t.unblinded_token, message) for t in unblinded_tokens]


def signed(token):
    """The unblinded token which results from the issuer signing a random token."""
    return zk.unblinded_token(token.decode())


def make(b):
    groups = b["groups"]
    n_vouchers = b["vouchers"]
    vouchers = [zk.voucher_number(i) for i in range(n_vouchers)]
    keys = b.get("keys", [KEY])
    # the sets of keys configured at the first start, the second and so on
    configs = b.get("configs", [[{KEY}]])

    def scenario(ch):
        totals = {v: b["tokens"] for v in vouchers}
        issuer = Issuer(groups, totals)
        path = zk.new_db()
        budget = {
            "put": b["puts"],
            "tick": b["ticks"],
            "crash": b["crashes"],
            "fault": b.get("faults", 0),
            "bad": b["bad"],
            "double": b.get("double", 0),
        }
        w = {"acked": set(), "last": {}, "faulted": False, "keyed": {}}
        # the configured number of tokens of a voucher, changed by each restart
        proc = {"starts": 0}
        quiet = [False]
        config = configs[ch.choose(len(configs), "configurations")]

        def hook(kind, sql):
            if quiet[0]:
                return
            options = ["-"]
            if budget["crash"]:
                options.append("crash")
            if budget["fault"] and kind != "committed":
                options.append("fault")
            if len(options) == 1:
                return
            o = ch.pick(options, "db:%s %s" % (kind, " ".join(sql.split())[:40]))
            if o == "crash":
                budget["crash"] -= 1
                raise zk.Crash()
            if o == "fault":
                budget["fault"] -= 1
                w["faulted"] = True
                if kind == "commit":
                    # SQLite rolls back when a commit fails for lack of space.
                    sqlite3.Connection.rollback(proc["conn"])
                raise sqlite3.OperationalError("database or disk is full")

        def start():
            conn = zk.open_conn(path)
            proc["conn"] = conn
            conn.hook = hook
            proc["clock"] = Clock()
            store = zk.make_store(conn)
            proc["store"] = store
            proc["count"] = b["tokens"] + (2 if proc["starts"] % 2 else 0)
            proc["allowed"] = config[min(proc["starts"], len(config) - 1)]
            proc["starts"] += 1
            proc["controller"] = PaymentController(
                proc["clock"],
                store,
                SimRedeemer(issuer),
                default_token_count=proc["count"],
                num_redemption_groups=groups,
                allowed_public_keys=proc["allowed"],
            )

        def restart(label):
            while True:
                proc["conn"].kill()
                issuer.outstanding[:] = []
                w["last"].clear()
                ch.note(label)
                try:
                    start()
                    if proc["conn"].dead:
                        # every handler swallowed it, but the process is gone
                        raise zk.Crash()
                    return
                except zk.Crash:
                    continue
                except sqlite3.OperationalError:
                    # failing to start on a full disk: start again
                    continue

        def step(label, f):
            ch.note(label)
            try:
                f()
            except zk.Crash:
                pass
            if proc["conn"].dead:
                restart("process died; restart")

        def put(v):
            if not any(x.number == v for x in proc["store"].list()):
                # the number of tokens is fixed when the voucher is accepted
                totals[v] = proc["count"]
            d = Deferred.fromCoroutine(proc["controller"].redeem(v))
            r = zk.result_of(d)
            if r[0] == "fail":
                if not isinstance(r[1], (sqlite3.OperationalError, zk.Crash)):
                    raise r[1]
            elif not proc["conn"].dead:
                w["acked"].add(v)

        def answer(req, outcome, key=KEY):
            issuer.outstanding.remove(req)
            v, counter, tokens, d = req
            if outcome in ("ok", "lost"):
                issuer.done[(v, counter)] = tokens
            if outcome == "ok":
                w["last"].pop(v, None)
                # what counts is the configuration in force when it is redeemed
                w["keyed"][(v, counter)] = key in proc["allowed"]
                d.callback(RedemptionResult([signed(t) for t in tokens], key))
            elif outcome == "unpaid":
                w["last"][v] = "unpaid"
                d.errback(Unpaid(v))
            elif outcome == "double":
                issuer.external.add(v)
                d.errback(AlreadySpent(v))
            else:
                w["last"][v] = "error"
                d.errback(Exception("transient (%s)" % outcome))

        def persisted(v):
            """Groups of v whose unblinded tokens are in the database."""
            db = zk.dump(path)
            have = {row[0] for row in db["unblinded-tokens"]}
            out = []
            for (vv, c), ts in sorted(issuer.done.items()):
                if vv == v:
                    n = sum(signed(t).unblinded_token.decode() in have for t in ts)
                    check(
                        n in (0, len(ts)),
                        "part of a redeemed group is in the database",
                        group=c,
                        present=n,
                        of=len(ts),
                    )
                    if n:
                        out.append(c)
            return out

        seen_persisted = {v: 0 for v in vouchers}

        def observe():
            was_quiet, quiet[0] = quiet[0], True
            try:
                db = zk.dump(path)
                all_signed = {
                    signed(t).unblinded_token.decode()
                    for ts in issuer.done.values()
                    for t in ts
                }
                have = [row[0] for row in db["unblinded-tokens"]]
                check(
                    set(have) <= all_signed and len(have) == len(set(have)),
                    "the store holds tokens which the issuer never signed",
                )
                known = {x.number: x for x in proc["store"].list()}
                check(
                    w["acked"] <= set(known),
                    "an accepted voucher is not in the database",
                )
                spendable = 0
                for v in vouchers:
                    groups_in = persisted(v)
                    check(
                        groups_in == list(range(len(groups_in))),
                        "groups persisted out of order",
                        groups=groups_in,
                    )
                    check(
                        len(groups_in) >= seen_persisted[v],
                        "redeemed tokens were lost",
                        before=seen_persisted[v],
                        after=len(groups_in),
                    )
                    seen_persisted[v] = len(groups_in)
                    ok_here = sum(
                        partition(totals[v], groups, c)
                        for c in groups_in
                        if w["keyed"].get((v, c))
                    )
                    spendable += ok_here
                    if v not in known:
                        continue
                    state = proc["controller"].get_voucher(v).state.to_json_v1()
                    durable = proc["store"].get(v).state.to_json_v1()
                    name = state["name"]
                    inflight = any(r[0] == v for r in issuer.outstanding)
                    if len(groups_in) == groups:
                        want = "redeemed"
                    elif inflight:
                        want = "redeeming"
                    elif v in issuer.external:
                        want = "double-spend"
                    elif w["last"].get(v):
                        want = w["last"][v]
                    else:
                        want = None
                    if w["faulted"] and want not in ("redeemed", "redeeming"):
                        want = None
                    check(
                        want is None or name == want,
                        "voucher reported in the wrong state",
                        reported=state,
                        expected=want,
                        durable=durable,
                    )
                    if name == "redeemed":
                        check(
                            state["token-count"] == ok_here,
                            "redeemed voucher reports the wrong number of tokens",
                            reported=state,
                            expected=ok_here,
                        )
                    if "counter" in state:
                        check(
                            state["counter"] == len(groups_in),
                            "reported progress differs from the redeemed groups",
                            reported=state,
                            groups=groups_in,
                        )
                    if "counter" in durable:
                        check(
                            durable["counter"] == len(groups_in),
                            "durable progress differs from the redeemed groups",
                            reported=durable,
                            groups=groups_in,
                        )
                check(
                    proc["store"].count_unblinded_tokens() == spendable,
                    "spendable token count is not the number of redeemed tokens",
                    reported=proc["store"].count_unblinded_tokens(),
                    expected=spendable,
                )
            finally:
                quiet[0] = was_quiet

        def check_spendable():
            good = sorted(
                signed(t).unblinded_token
                for (v, c), ts in issuer.done.items()
                if w["keyed"].get((v, c))
                for t in ts
            )
            store = proc["store"]
            n = store.count_unblinded_tokens()
            got = store.get_unblinded_tokens(n)
            check(
                sorted(t.unblinded_token for t in got) == good,
                "the tokens which can be spent are not exactly those signed with a "
                "configured key",
                got=len(got),
                expected=len(good),
            )
            try:
                store.get_unblinded_tokens(1)
            except NotEnoughTokens:
                pass
            else:
                raise Violation("a token signed with another key can be spent")
            store.reset_unblinded_tokens(got)

        def key():
            return (
                zk.dump(path),
                zk.fingerprint(proc["controller"]),
                issuer.state(),
                sorted(budget.items()),
                sorted(w["acked"]),
                sorted(w["last"].items()),
                w["faulted"],
                sorted(w["keyed"].items()),
                sorted(totals.items()),
                proc["count"],
                sorted(proc["allowed"]),
                config is configs[0],
            )

        try:
            try:
                start()
            except zk.Crash:
                restart("process died at startup; restart")
            while True:  # every event uses up a budget or completes a group
                events = ["stop"]
                for i, v in enumerate(vouchers):
                    if budget["put"]:
                        # symmetric vouchers: submit them in order
                        if i == 0 or vouchers[i - 1] in w["acked"]:
                            events.append(("put", i))
                for j, (v, c, t, d) in enumerate(issuer.outstanding):
                    if v in issuer.external:
                        events.append(("answer", j, "double", None))
                        continue
                    for k in keys:
                        events.append(("answer", j, "ok", k))
                    if budget["bad"]:
                        events.append(("answer", j, "lost", None))
                        events.append(("answer", j, "error", None))
                        if not any(vv == v for (vv, _) in issuer.done):
                            events.append(("answer", j, "unpaid", None))
                            if budget["double"]:
                                events.append(("answer", j, "double", None))
                if budget["tick"] and w["last"]:
                    events.append("tick")
                if budget["crash"]:
                    events.append("crash")
                ev = ch.pick(events, "event")
                if ev == "stop":
                    break
                if ev == "tick":
                    budget["tick"] -= 1
                    step("retry timer", lambda: proc["clock"].advance(1.0))
                elif ev == "crash":
                    budget["crash"] -= 1
                    restart("crash; restart")
                elif ev[0] == "put":
                    budget["put"] -= 1
                    step("user submits", lambda: put(vouchers[ev[1]]))
                else:
                    req = issuer.outstanding[ev[1]]
                    if req[0] not in issuer.external:
                        if ev[2] != "ok":
                            budget["bad"] -= 1
                        if ev[2] == "double":
                            budget["double"] -= 1
                    step(
                        "issuer answers group %d: %s" % (req[1], ev[2]),
                        lambda: answer(req, ev[2], ev[3]),
                    )
                if not ch.replaying:
                    observe()
                ch.visit(key)

            # Closure: from here on nothing fails, the issuer is honest and every
            # voucher is paid for.  Everything must be redeemed.
            quiet[0] = True
            w["acked"] |= {x.number for x in proc["store"].list()}
            ch.note("-- no further faults --")

            def settle():
                for _ in range((groups + 2) * n_vouchers + 2):
                    while issuer.outstanding:
                        req = issuer.outstanding[0]
                        answer(req, "double" if req[0] in issuer.external else "ok")
                    proc["clock"].advance(1.0)
                    if not issuer.outstanding and all(
                        len(persisted(v)) == groups
                        for v in w["acked"] - issuer.external
                    ):
                        break

            settle()
            for v in w["acked"] - issuer.external:
                check(
                    len(persisted(v)) == groups,
                    "an accepted, paid voucher is never completely redeemed",
                    groups=persisted(v),
                    state=proc["controller"].get_voucher(v).state.to_json_v1(),
                )
            w["last"].clear()
            observe()
            # A user submitting the voucher again changes nothing.
            before = (zk.dump(path), issuer.requests)
            for v in sorted(w["acked"]):
                put(v)
            check(
                (zk.dump(path), issuer.requests) == before,
                "submitting a finished voucher again is not idempotent",
            )
            # A restart changes nothing.
            restart("final restart")
            check(
                (zk.dump(path), issuer.requests) == before,
                "a restart with only finished vouchers is not idempotent",
            )
            if b.get("spend"):
                check_spendable()
                restart("restart before spending again")
                check_spendable()
            return "redeemed=%s external=%d requests=%d" % (
                sorted(len(persisted(v)) for v in vouchers),
                len(issuer.external),
                issuer.requests,
            )
        finally:
            quiet[0] = True
            if "conn" in proc:
                proc["conn"].kill()
            zk.remove(path)

    return scenario


def make_partition(b):
    from _zkapauthorizer.controller import token_count_for_group

    def scenario(ch):
        g = 1 + ch.choose(b["max_groups"], "groups")
        n = ch.choose(b["max_tokens"] + 1, "tokens")
        if n < g:
            try:
                token_count_for_group(g, n, 0)
            except ValueError:
                return "rejected"
            raise Violation("fewer tokens than groups is not rejected", dict(g=g, n=n))
        sizes = [token_count_for_group(g, n, i) for i in range(g)]
        check(
            sum(sizes) == n and all(s >= 1 for s in sizes),
            "groups do not partition the tokens",
            groups=g,
            tokens=n,
            sizes=sizes,
        )
        check(
            max(sizes) - min(sizes) <= 1,
            "groups are not as even as possible",
            sizes=sizes,
        )
        return "max=%d" % max(sizes)

    return scenario


CHECK = Check(
    "R01",
    "model_checking",
    "every choice sequence of {submit voucher, issuer answers ok / ok-but-reply-lost / "
    "transient error / unpaid / spent-elsewhere, retry timer, crash at any write or "
    "commit or between events, failed write} within the bounds, executed on the real "
    "controller and store; states merged on database + controller + issuer contents; "
    "each reached state is closed with a fault-free suffix and compared to a reference "
    "issuer ledger",
    [
        "the issuer is idempotent for an identical (voucher, counter, tokens) submission "
        "and rejects a different token set for a redeemed counter",
        "SQLite commits are atomic (a crash loses exactly the uncommitted transaction)",
    ],
    [
        Scenario(
            "one-voucher",
            make,
            dict(groups=3, vouchers=1, tokens=5, puts=2, ticks=2, crashes=1, bad=3,
                 double=1),
            dict(groups=3, vouchers=1, tokens=5, puts=3, ticks=3, crashes=2, bad=4,
                 double=1),
        ),
        Scenario(
            "two-vouchers",
            make,
            dict(groups=2, vouchers=2, tokens=3, puts=2, ticks=1, crashes=1, bad=1),
            dict(groups=2, vouchers=2, tokens=3, puts=3, ticks=2, crashes=1, bad=3),
        ),
        Scenario(
            "storage-faults",
            make,
            dict(groups=2, vouchers=1, tokens=3, puts=2, ticks=1, crashes=1, bad=1,
                 faults=1),
            dict(groups=2, vouchers=1, tokens=3, puts=2, ticks=2, crashes=1, bad=2,
                 faults=2),
        ),
        Scenario(
            "partition", make_partition, dict(max_groups=24, max_tokens=160),
            dict(max_groups=64, max_tokens=600),
        ),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
