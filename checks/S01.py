"""
S01: each stored token is in exactly one state, whatever sequence of spending
operations, failures, crashes and restarts.
"""

import itertools
import sqlite3

from _zkapauthorizer.model import NotEnoughTokens
from _zkapauthorizer.spending import SpendingController

from mc import zk
from mc.core import Violation, check
from mc.runner import Check, Scenario

SQLITE_MAX = 2**63 - 1


def names(tokens):
    return [t.unblinded_token.decode("ascii") for t in tokens]


class Group:
    """A batch of passes held by the environment: the real object and the model."""

    def __init__(self, real, message, tokens):
        self.real = real
        self.message = message
        self.tokens = list(tokens)


def make(b):
    v1, v2 = zk.voucher_number(1), zk.voucher_number(2)

    def populate(store):
        """v1: b['good'] spendable, then 1 sequestered; v2: b['good2'] spendable."""
        good, seq = [], []
        for v, groups in (
            (v1, [(b["good"], True), (b["sequestered"], False)]),
            (v2, [(b["good2"], True)]),
        ):
            for c, (n, ok) in enumerate(groups):
                rnd = [zk.random_token("%s/%d/%d" % (v, c, i)) for i in range(n)]
                store.add(v, sum(g[0] for g in groups), c, lambda: rnd)
                toks = [zk.unblinded_token("%s/%d/%d" % (v, c, i)) for i in range(n)]
                store.insert_unblinded_tokens_for_voucher(
                    v, "key%s" % ok, toks, completed=c == len(groups) - 1, spendable=ok
                )
                (good if ok else seq).extend(names(toks))
        return good, seq

    def scenario(ch):
        path = zk.new_db()
        proc = {}
        quiet = [True]
        budget = {
            "ops": b["ops"],
            "crash": b["crashes"],
            "fault": b["faults"],
            "restart": b["restarts"],
        }
        events = []  # what happened within the current operation

        def hook(kind, sql):
            if quiet[0]:
                return
            options = ["-"]
            if budget["crash"]:
                options.append("crash")
            if budget["fault"] and kind in ("execute", "executemany"):
                options.append("fault")
            if len(options) == 1:
                if kind == "committed":
                    events.append("committed")
                return
            o = ch.pick(options, "db:%s %s" % (kind, " ".join(sql.split())[:40]))
            if kind == "committed":
                events.append("committed")
            if o == "crash":
                budget["crash"] -= 1
                raise zk.Crash()
            if o == "fault":
                budget["fault"] -= 1
                events.append("fault")
                raise sqlite3.OperationalError("disk I/O error")

        def start():
            conn = zk.open_conn(path)
            conn.hook = hook
            proc["conn"] = conn
            proc["store"] = zk.make_store(conn)
            proc["ctl"] = SpendingController.for_store(
                lambda m, ts: [zk.pass_for(t.unblinded_token, m) for t in ts],
                proc["store"],
            )

        start()
        good, seq = populate(proc["store"])
        m = dict(spendable=set(good), spent=set(), invalid={}, groups=[])
        extra = [0]

        def held():
            return {t for g in m["groups"] for t in g.tokens}

        def restart():
            proc["conn"].kill()
            m["spendable"] |= held()
            m["groups"][:] = []
            was, quiet[0] = quiet[0], True
            start()
            quiet[0] = was

        def check_group(g):
            got = names(g.real.unblinded_tokens)
            check(
                got == g.tokens,
                "a batch does not hold exactly its tokens",
                got=got,
                expected=g.tokens,
            )
            check(
                list(g.real.passes)
                == [zk.pass_for(t.encode("ascii"), g.message) for t in g.tokens],
                "a batch holds passes which are not its tokens bound to its message",
            )

        def observe():
            was, quiet[0] = quiet[0], True
            try:
                db = zk.dump(path)
                have = [r[0] for r in db["unblinded-tokens"]]
                check(
                    sorted(have) == sorted(m["spendable"] | held() | set(seq)),
                    "stored tokens are not the spendable, in-use and sequestered ones",
                    missing=sorted((m["spendable"] | held() | set(seq)) - set(have)),
                    extra=sorted(set(have) - (m["spendable"] | held() | set(seq))),
                )
                bad = dict(db["invalid-unblinded-tokens"])
                check(
                    bad == m["invalid"],
                    "tokens set aside as invalid are not exactly the rejected ones",
                    got=bad,
                    expected=m["invalid"],
                )
                n = proc["store"].count_unblinded_tokens()
                check(
                    n == len(m["spendable"]),
                    "wrong number of spendable tokens",
                    got=n,
                    expected=len(m["spendable"]),
                )
                for g in m["groups"]:
                    check_group(g)
                # Everything spendable can be taken, nothing else.
                store = proc["store"]
                got = store.get_unblinded_tokens(n)
                check(
                    sorted(names(got)) == sorted(m["spendable"]),
                    "tokens given out are not exactly the spendable ones",
                    got=sorted(names(got)),
                    expected=sorted(m["spendable"]),
                )
                for k in (1, SQLITE_MAX, SQLITE_MAX + 1):
                    try:
                        store.get_unblinded_tokens(k)
                    except NotEnoughTokens:
                        pass
                    else:
                        raise Violation("tokens given out beyond the spendable ones")
                store.reset_unblinded_tokens(got)
                check(
                    store.count_unblinded_tokens() == n,
                    "released tokens are not spendable again",
                )
            finally:
                quiet[0] = was

        def attempt(f):
            """
            Run one operation.  Returns ('ok', value), ('fail', exception) or
            ('crash', committed?).
            """
            del events[:]
            quiet[0] = False
            try:
                try:
                    r = ("ok", f())
                except zk.Crash:
                    r = ("crash", "committed" in events)
                except sqlite3.OperationalError as e:
                    check("fault" in events, "unexpected database error", e=repr(e))
                    r = ("fail", e)
                except NotEnoughTokens as e:
                    r = ("short", e)
            finally:
                quiet[0] = True
            if r[0] == "ok":
                check(
                    "fault" not in events,
                    "a failed database operation was reported as a success",
                )
            return r

        def take(n, message):
            return attempt(lambda: proc["ctl"].get(message, n))

        def taken(r, n, message, base=()):
            """Account for the outcome of taking n tokens."""
            if r[0] == "crash":
                restart()
                return None
            if r[0] == "fail":
                return None
            if n > len(m["spendable"]):
                check(r[0] == "short", "taking too many tokens did not fail", got=r[0])
                return None
            check(r[0] == "ok", "taking available tokens failed", got=repr(r))
            real = r[1]
            toks = names(real.unblinded_tokens)
            check(
                toks[: len(base)] == list(base),
                "an expanded batch lost its own tokens",
            )
            new = toks[len(base):]
            check(
                len(new) == n and len(set(new)) == n and set(new) <= m["spendable"],
                "tokens taken are not distinct spendable tokens of the number asked",
                asked=n,
                got=new,
                in_use=sorted(held() & set(new)),
                spent=sorted(m["spent"] & set(new)),
                invalid=sorted(set(m["invalid"]) & set(new)),
                sequestered=sorted(set(seq) & set(new)),
            )
            m["spendable"] -= set(new)
            return Group(real, message, toks)

        def key():
            return (
                zk.dump(proc["conn"], temp=True),
                sorted(m["spendable"]),
                [(g.message, g.tokens) for g in m["groups"]],
                sorted(budget.items()),
                extra[0],
            )

        try:
            if not ch.replaying:
                observe()
            while budget["ops"]:
                ops = ["stop"]
                avail = len(m["spendable"])
                if len(m["groups"]) < b["open"]:
                    for n in sorted({0, 1, 2, avail, avail + 1}):
                        ops.append(("take", n))
                    if b.get("huge"):
                        ops.append(("take", SQLITE_MAX + 1))
                for i, g in enumerate(m["groups"]):
                    ops += [("spend", i), ("invalidate", i), ("reset", i)]
                    for n in sorted({0, 1, avail, avail + 1}):
                        ops.append(("expand", i, n))
                    if len(m["groups"]) < b["open"] and len(g.tokens) <= 3:
                        for k in range(len(g.tokens) + 1):
                            for sel in itertools.combinations(range(len(g.tokens)), k):
                                ops.append(("split", i, sel))
                if budget["restart"]:
                    ops.append("restart")
                if extra[0] < b["redeem"]:
                    ops.append("redeem")
                op = ch.pick(ops, "op")
                if op == "stop":
                    break
                budget["ops"] -= 1
                if op == "restart":
                    budget["restart"] -= 1
                    restart()
                elif op == "redeem":
                    extra[0] += 1
                    t = zk.unblinded_token("extra/%d" % extra[0])
                    v = zk.voucher_number(10 + extra[0])
                    store = proc["store"]
                    store.add(v, 1, 0, lambda: [zk.random_token("extra%d" % extra[0])])
                    r = attempt(
                        lambda: store.insert_unblinded_tokens_for_voucher(
                            v, "keyTrue", [t], completed=True, spendable=True
                        )
                    )
                    if r[0] == "ok" or r == ("crash", True):
                        m["spendable"] |= set(names([t]))
                    if r[0] == "crash":
                        restart()
                elif op[0] == "take":
                    message = b"message %d" % (len(m["groups"]))
                    g = taken(take(op[1], message), op[1], message)
                    if g is not None:
                        m["groups"].append(g)
                elif op[0] == "expand":
                    g = m["groups"][op[1]]
                    r = attempt(lambda: g.real.expand(op[2]))
                    g2 = taken(r, op[2], g.message, g.tokens)
                    if g2 is not None:
                        m["groups"][op[1]] = g2
                elif op[0] == "split":
                    g = m["groups"].pop(op[1])
                    a, c = g.real.split(list(op[2]))
                    sel = [t for i, t in enumerate(g.tokens) if i in op[2]]
                    rest = [t for i, t in enumerate(g.tokens) if i not in op[2]]
                    m["groups"] += [
                        Group(a, g.message, sel),
                        Group(c, g.message, rest),
                    ]
                else:
                    i = op[1]
                    g = m["groups"][i]
                    f = {
                        "spend": g.real.mark_spent,
                        "invalidate": lambda: g.real.mark_invalid("reason %d" % i),
                        "reset": g.real.reset,
                    }[op[0]]
                    r = attempt(f)
                    check(r[0] != "short", "unexpected NotEnoughTokens")
                    if r[0] == "ok" or r == ("crash", True):
                        m["groups"].pop(i)
                        if op[0] == "spend":
                            m["spent"] |= set(g.tokens)
                        elif op[0] == "invalidate":
                            m["invalid"].update({t: "reason %d" % i for t in g.tokens})
                        else:
                            m["spendable"] |= set(g.tokens)
                    if r[0] == "crash":
                        restart()
                if not ch.replaying:
                    observe()
                ch.visit(key)
            # after a restart everything in use is spendable again
            restart()
            observe()
            return "spent=%d invalid=%d spendable=%d" % (
                len(m["spent"]),
                len(m["invalid"]),
                len(m["spendable"]),
            )
        finally:
            quiet[0] = True
            proc["conn"].kill()
            zk.remove(path)

    return scenario


CHECK = Check(
    "S01",
    "model_checking",
    "every sequence of {take n, split by every subset, expand, spend, invalidate, "
    "reset on any open batch, redeem more tokens, restart} up to the depth, with a "
    "crash or a database error at every write and commit, on the real store and "
    "spending controller; states merged on database + temporary tables + open batches; "
    "after every step the store is compared with a set model and everything spendable "
    "is taken and released",
    [
        "SQLite commits are atomic",
        "each batch is consumed (spent, invalidated, reset, split, expanded) once, as "
        "the interface requires",
    ],
    [
        Scenario(
            "operations",
            make,
            dict(good=2, good2=1, sequestered=1, ops=5, open=2, redeem=1, crashes=0,
                 faults=0, restarts=1, huge=True),
            dict(good=3, good2=2, sequestered=1, ops=7, open=3, redeem=1, crashes=0,
                 faults=0, restarts=1, huge=True),
        ),
        Scenario(
            "large-batches",
            make,
            dict(good=1100, good2=1, sequestered=1, ops=3, open=1, redeem=0, crashes=0,
                 faults=0, restarts=0),
            dict(good=1100, good2=1, sequestered=1, ops=4, open=2, redeem=0, crashes=0,
                 faults=0, restarts=1),
        ),
        Scenario(
            "crashes",
            make,
            dict(good=2, good2=1, sequestered=1, ops=4, open=2, redeem=1, crashes=1,
                 faults=0, restarts=0),
            dict(good=2, good2=1, sequestered=1, ops=5, open=2, redeem=1, crashes=2,
                 faults=0, restarts=1),
        ),
        Scenario(
            "storage-errors",
            make,
            dict(good=2, good2=1, sequestered=1, ops=4, open=2, redeem=1, crashes=0,
                 faults=1, restarts=0),
            dict(good=2, good2=1, sequestered=1, ops=5, open=2, redeem=1, crashes=0,
                 faults=2, restarts=1),
        ),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
