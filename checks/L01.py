"""
L01: lease maintenance renews exactly the leases that need it.
"""

from datetime import datetime, timedelta

from allmydata.interfaces import IDirectoryNode, IFilesystemNode
from allmydata.util.hashutil import (
    bucket_cancel_secret_hash,
    bucket_renewal_secret_hash,
    file_cancel_secret_hash,
    file_renewal_secret_hash,
)
from twisted.internet.defer import Deferred, fail, succeed
from zope.interface import implementer

from _zkapauthorizer.foolscap import ShareStat
from _zkapauthorizer.lease_maintenance import maintain_leases_from_root
from _zkapauthorizer.model import ILeaseMaintenanceObserver

from mc.core import Violation, check
from mc.runner import Check, Scenario


class Trouble(Exception):
    pass


@implementer(IFilesystemNode)
class Leaf:
    def __init__(self, si):
        self.si = si

    def get_storage_index(self):
        return self.si


@implementer(IDirectoryNode)
class Directory:
    def __init__(self, si, world):
        self.si = si
        self.world = world
        self.children = {}
        self.how = "now"
        self.listed = 0

    def get_storage_index(self):
        return self.si

    def list(self):
        self.listed += 1
        if self.listed > 20:
            raise Violation("a directory is listed again and again")
        result = {name: (node, {}) for (name, node) in self.children.items()}
        if self.how == "raises":
            raise Trouble("raised")
        if self.how == "fails":
            return fail(Trouble("unrecoverable"))
        if self.how == "later":
            d = Deferred()
            self.world.pending.append(lambda: d.callback(result))
            return d
        if self.how == "fails later":
            d = Deferred()
            self.world.pending.append(lambda: d.errback(Trouble("late")))
            return d
        return succeed(result)


class Secrets:
    def get_renewal_secret(self):
        return b"R" * 32

    def get_cancel_secret(self):
        return b"C" * 32


class Server:
    """
    A storage server as Tahoe-LAFS represents it to its clients.
    """

    def __init__(self, world, index):
        self.world = world
        self.seed = b"%d" % index * 20
        self.shares = {}
        self.stat_fails = None
        self.add_fails = {}
        self.asked = []
        self.added = []

    def get_storage_server(self):
        return self

    def get_lease_seed(self):
        return self.seed

    def stat_shares(self, storage_indexes):
        self.asked.append(list(storage_indexes))
        check(
            all(isinstance(si, bytes) for si in storage_indexes),
            "a server is asked about something without a storage index",
        )
        if self.stat_fails:
            return self.world.failure(self.stat_fails)
        return succeed(
            [
                {n: ShareStat(size, exp) for n, (size, exp) in self.shares.get(si, {}).items()}
                for si in storage_indexes
            ]
        )

    def add_lease(self, storage_index, renew, cancel):
        self.added.append((storage_index, renew, cancel))
        how = self.add_fails.get(storage_index)
        if how:
            return self.world.failure(how)
        return succeed(None)


class Broker:
    def __init__(self, servers):
        self.servers = servers

    def get_connected_servers(self):
        return frozenset(self.servers) if len(self.servers) == 1 else list(self.servers)


@implementer(ILeaseMaintenanceObserver)
class Observer:
    def __init__(self):
        self.sizes = []
        self.finished = 0

    def observe(self, sizes):
        check(not self.finished, "something is observed after the run was finished")
        self.sizes.extend(sizes)

    def finish(self):
        self.finished += 1


class World:
    def __init__(self):
        self.pending = []

    def failure(self, how):
        if how == "raises":
            raise Trouble("raised")
        if how == "later":
            d = Deferred()
            self.pending.append(lambda: d.errback(Trouble("late")))
            return d
        return fail(Trouble("failed"))

    def run(self, get_roots, servers, minimum, now):
        """
        One run of lease maintenance.

        :return: (observers, outcome)
        """
        observers = []

        def observer():
            observers.append(Observer())
            return observers[-1]

        operation = maintain_leases_from_root(
            get_roots, Broker(servers), Secrets(), minimum, observer, lambda: now
        )
        outcome = []
        Deferred.fromCoroutine(operation()).addBoth(outcome.append)
        while self.pending:
            check(not outcome, "the run ended before its work did")
            self.pending.pop(0)()
        check(len(outcome) == 1, "the run does not end")
        return observers, outcome[0]


def secrets_for(si, server):
    return (
        si,
        bucket_renewal_secret_hash(file_renewal_secret_hash(b"R" * 32, si), server.seed),
        bucket_cancel_secret_hash(file_cancel_secret_hash(b"C" * 32, si), server.seed),
    )


NOW = datetime(2024, 1, 2, 3, 4, 5)
EPOCH = datetime(1970, 1, 1)


def stamp(when):
    return int((when - EPOCH).total_seconds())


def graphs(b):
    n = b["directories"]
    leaves = b["leaves"]

    def scenario(ch):
        w = World()
        dirs = [Directory(b"d%d" % i * 8, w) for i in range(n)]
        for i, d in enumerate(dirs):
            bits = ch.choose(2**n, "children of d%d" % i)
            for j in range(n):
                if bits >> j & 1:
                    # names decide the order of the visits
                    d.children["%d-%d" % ((j + i) % n, j)] = dirs[j]
        failing = None
        k = ch.choose(1 + n * len(b["listing"]), "unusual listing")
        if k:
            failing = dirs[(k - 1) // len(b["listing"])]
            failing.how = b["listing"][(k - 1) % len(b["listing"])]
        for kind in leaves:
            # each in no directory, in one, or in two
            places = ch.pick(
                [()] + [(i,) for i in range(n)] + ([(0, n - 1)] if n > 1 else []), kind
            )
            if kind == "file":
                leaf = Leaf(b"file" * 4)
            elif kind in ("literal", "unknown"):
                leaf = Leaf(None)
            elif kind == "literal directory":
                leaf = Directory(None, w)
                leaf.children["inner"] = Leaf(b"deep" * 4)
                leaf.children["none"] = Leaf(None)
            elif kind == "same as directory":
                # for example the file which holds an immutable directory
                leaf = Leaf(dirs[-1].si)
            for i in places:
                dirs[i].children["%s %s" % ("a" if i % 2 else "z", kind)] = leaf
        roots = ch.pick([[dirs[0]], [dirs[0], dirs[-1]], [dirs[0], Leaf(None)]], "roots")

        # reference: what can be reached
        reachable = set()
        todo = list(roots)
        done = set()
        while todo:
            node = todo.pop()
            if id(node) in done:
                continue
            done.add(id(node))
            if node.si is not None:
                reachable.add(node.si)
            if isinstance(node, Directory) and node.how not in ("raises", "fails", "fails later"):
                todo.extend(node.children.values())

        server = Server(w, 0)
        for si in reachable:
            server.shares[si] = {0: (100, stamp(NOW) - 1)}
        observers, outcome = w.run(lambda: list(roots), [server], timedelta(0), NOW)
        asked = [si for l in server.asked for si in l]
        check(len(asked) == len(set(asked)), "an object is examined more than once", asked=asked)
        check(
            set(asked) == reachable,
            "not exactly the reachable objects are examined",
            missing=reachable - set(asked),
            extra=set(asked) - reachable,
            outcome=outcome,
        )
        check(
            sorted(server.added) == sorted(secrets_for(si, server) for si in reachable),
            "not exactly the expired leases are renewed",
        )
        check(
            len(observers) == 1 and observers[0].finished == 1,
            "the observer is not told of the end of the run",
            outcome=outcome,
        )
        return "%d reachable" % len(reachable)

    return scenario


def renewals(b):
    def scenario(ch):
        w = World()
        minimum = ch.pick(b["minimum"], "minimum")
        now = NOW + timedelta(microseconds=ch.pick(b["fraction"], "microseconds"))
        threshold = stamp(NOW + minimum)
        # what the leases may say
        exps = {
            "none": 0,
            "expired": stamp(NOW) - 5,
            "just before": threshold - 1,
            "at": threshold,
            "just after": threshold + 1,
            "long": threshold + 10**6,
        }
        layouts = [()] + [(e,) for e in b["expiration"]]
        layouts += [(e, f) for e in b["pairs"] for f in b["pairs"]]
        objects = [b"%d" % i * 16 for i in range(b["objects"])]
        servers = [Server(w, i) for i in range(b["servers"])]
        for i, s in enumerate(servers):
            for j, si in enumerate(objects):
                layout = ch.pick(layouts, "server %d object %d" % (i, j))
                if layout:
                    s.shares[si] = {
                        (3 * k + i) % 7: (1 + 1000 * i + 100 * j + k, exps[e])
                        for k, e in enumerate(layout)
                    }
        failures = [None]
        for i, s in enumerate(servers):
            failures.append((i, None))
            failures.extend((i, si) for si in objects if si in s.shares)
        failure = ch.pick(failures, "failure")
        if failure is not None:
            how = ch.pick(["raises", "fails", "later"], "how")
            if failure[1] is None:
                servers[failure[0]].stat_fails = how
            else:
                servers[failure[0]].add_fails[failure[1]] = how
        root = Directory(b"r" * 16, w)
        for i, si in enumerate(objects):
            root.children["c%d" % i] = Leaf(si)
        observers, outcome = w.run(lambda: [root], servers, minimum, now)

        sizes = []
        for s in servers:
            if s.stat_fails:
                want = []
            else:
                want = []
                for si, shares in s.shares.items():
                    sizes.extend(size for (size, _) in shares.values())
                    first = min(exp for (_, exp) in shares.values())
                    if EPOCH + timedelta(seconds=first) - now < minimum:
                        want.append(secrets_for(si, s))
            check(
                sorted(s.added) == sorted(want),
                "not exactly the leases that need it are renewed on a server",
                server=servers.index(s),
                missing=[x[0] for x in want if x not in s.added],
                extra=[x[0] for x in s.added if x not in want],
                outcome=outcome,
            )
        check(len(observers) == 1, "not one run was recorded", runs=len(observers))
        check(
            sorted(observers[0].sizes) == sorted(sizes),
            "not the size of every stored share was observed once",
            observed=observers[0].sizes,
            expected=sizes,
        )
        check(observers[0].finished == 1, "the run was not recorded as finished", outcome=outcome)
        return "%d renewed" % sum(len(s.added) for s in servers)

    return scenario


def many(b):
    """
    Every number of objects, so that no limit on what is asked at once matters.
    """

    def scenario(ch):
        n = ch.choose(b["objects"] + 1, "objects")
        every = ch.pick(b["every"], "one of so many needs it")
        w = World()
        root = Directory(b"root" * 4, w)
        server = Server(w, 0)
        other = Server(w, 1)
        objects = [b"object" + i.to_bytes(10, "big") for i in range(n)]
        want = {0: [], 1: []}
        sizes = []
        for i, si in enumerate(objects):
            root.children["c%06d" % i] = Leaf(si)
            for k, s in enumerate((server, other)):
                if (i + k) % 5 == 4:
                    continue  # not on this server
                expired = i % every == k
                s.shares[si] = {k: (i + 1, stamp(NOW) + (-1 if expired else 1))}
                sizes.append(i + 1)
                if expired:
                    want[k].append(secrets_for(si, s))
        observers, outcome = w.run(lambda: [root], [server, other], timedelta(0), NOW)
        for k, s in enumerate((server, other)):
            check(
                sorted(s.added) == sorted(want[k]),
                "not exactly the leases that need it are renewed among many objects",
                objects=n,
                missing=len([x for x in want[k] if x not in s.added]),
                extra=len([x for x in s.added if x not in want[k]]),
                outcome=outcome,
            )
            asked = [si for l in s.asked for si in l]
            check(
                sorted(asked) == sorted(objects + [root.si]),
                "not every object is examined exactly once",
                objects=n,
            )
        check(
            len(observers) == 1 and sorted(observers[0].sizes) == sorted(sizes),
            "not the size of every stored share was observed once",
            objects=n,
        )
        return "%d renewed" % sum(len(s.added) for s in (server, other))

    return scenario


EXP = ["none", "expired", "just before", "at", "just after", "long"]

CHECK = Check(
    "L01",
    "exploration",
    "one run of lease maintenance on every directory graph, lease layout and single failure in bounds",
    [
        "directory nodes and storage servers are models with Tahoe-LAFS's interfaces",
        "the shares of one object on one server are renewed together, which is the only call there is",
        "times have whole seconds in leases, as in Tahoe-LAFS",
    ],
    [
        Scenario(
            "graphs",
            graphs,
            quick=dict(
                directories=2,
                leaves=["file", "literal", "literal directory", "same as directory"],
                listing=["raises", "fails", "later", "fails later"],
            ),
            thorough=dict(
                directories=3,
                leaves=["file", "literal", "literal directory", "same as directory"],
                listing=["raises", "fails", "later", "fails later"],
            ),
        ),
        Scenario(
            "larger graphs",
            graphs,
            quick=dict(directories=3, leaves=["file"], listing=["fails", "later"]),
            thorough=dict(directories=4, leaves=["file"], listing=["fails"]),
        ),
        Scenario(
            "thresholds",
            renewals,
            quick=dict(
                objects=2, servers=1, minimum=[timedelta(0), timedelta(days=3)], fraction=[0, 500000],
                expiration=EXP, pairs=["none", "at", "long"],
            ),
            thorough=dict(
                objects=2, servers=1, minimum=[timedelta(0), timedelta(days=3), timedelta(seconds=1)],
                fraction=[0, 1, 500000, 999999], expiration=EXP, pairs=EXP,
            ),
        ),
        Scenario(
            "servers",
            renewals,
            quick=dict(
                objects=2, servers=2, minimum=[timedelta(days=3)], fraction=[0],
                expiration=["just before", "at"], pairs=[],
            ),
            thorough=dict(
                objects=2, servers=3, minimum=[timedelta(days=3)], fraction=[0],
                expiration=["just before", "at"], pairs=[],
            ),
        ),
        Scenario(
            "many objects",
            many,
            quick=dict(objects=600, every=[3]),
            thorough=dict(objects=2200, every=[1, 2, 7]),
        ),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
