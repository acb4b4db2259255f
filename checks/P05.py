"""
P05: replication is set up at most once and never loses the capability.
"""

import os
import shutil

import tahoe_capabilities as tc

from _zkapauthorizer.config import REPLICA_RWCAP_BASENAME

from mc import zk
from mc.core import check
from mc.files import FileFaults, orphan_lock
from mc.grid import Client, Grid
from mc.node import Connection, Node, Response, raw_request
from mc.runner import Check, Scenario


class Process(Node):
    """
    A client node's process, on a directory that outlives it.
    """

    def __init__(self, grid, directory=None, plugin_config=()):
        self.grid = grid
        if directory is None:
            Node.__init__(self, plugin_config=plugin_config)
        else:
            Node.__init__(self, plugin_config=plugin_config, directory=directory)
        self.tahoe = Client(grid, os.path.join(self.dir, "private"))
        self.root = None
        self.requests = []

    def up(self):
        self.root = self.resource()
        for f, a, kw in self.reactor.whenRunningHooks:
            f(*a, **kw)

    def post(self):
        conn = Connection(self.root)
        self.requests.append(conn)
        conn.send(raw_request(b"POST", b"/replicate"))
        return conn


def setup(b):
    def scenario(ch):
        grid = Grid()
        box = {"crashes": b["crashes"], "errors": b["errors"], "armed": True}

        def hook(kind, name, partly):
            if not box["armed"]:
                return
            if REPLICA_RWCAP_BASENAME not in name:
                return
            options = ["-"]
            if box["crashes"]:
                options.append("crash")
                if partly is not None:
                    options.append("crash halfway")
            if box["errors"] and kind in ("create", "write", "rename", "replace", "overwrite"):
                options.append("error")
            o = ch.pick(options, "%s %s" % (kind, name.replace(REPLICA_RWCAP_BASENAME, "rwcap")))
            if o == "error":
                box["errors"] -= 1
                raise OSError(28, "No space left on device")
            if o.startswith("crash"):
                box["crashes"] -= 1
                if o == "crash halfway":
                    partly(1)
                raise zk.Crash()

        node = Process(grid)
        directory = node.dir
        path = os.path.join(directory, "private", REPLICA_RWCAP_BASENAME)
        answers = []  # the capability of every answer that had one
        budget = {"requests": b["requests"], "failures": b["failures"], "restarts": b["restarts"]}
        faults = FileFaults(directory, hook)
        try:
            with faults:

                def observe():
                    """
                    Take note of what clients got.
                    """
                    for conn in list(node.requests):
                        raw = conn.received()
                        if not raw:
                            continue
                        node.requests.remove(conn)
                        r = Response(raw)
                        ch.note("answer %s" % r.status)
                        if r.status in (201, 409):
                            check(
                                r.status == (409 if conn.known else 201) or not conn.known,
                                "a new replica is created though there is one",
                            )
                            answers.append(r.json()["recovery-capability"])
                        else:
                            check(r.status == 500, "unexpected answer", answer=r)
                            check(
                                conn.known is None,
                                "a capability was returned before, but not to this later request",
                                answer=r,
                            )
                    check(
                        len(set(answers)) <= 1,
                        "different capabilities were returned",
                        capabilities=sorted(set(answers)),
                    )
                    if answers:
                        tc.readonly_directory_from_string(answers[0])
                        with open(path) as f:
                            stored = tc.writeable_directory_from_string(f.read())
                        check(
                            tc.danger_real_capability_string(stored.reader) == answers[0],
                            "the capability that was returned does not read what the node writes",
                        )

                def request():
                    known = answers[0] if answers else None
                    conn = Connection(node.root)
                    conn.known = known
                    node.requests.append(conn)
                    conn.send(raw_request(b"POST", b"/replicate"))

                def replica_ops():
                    return [op for op in node.tahoe.pending if op.name != "make_directory"]

                def crash():
                    """
                    The process died.  What it did since does not count.
                    """
                    restart()

                def orphaned():
                    faults.dead = False
                    armed, box["armed"] = box["armed"], False
                    orphan_lock(path + ".lock")
                    box["armed"] = armed

                def restart():
                    nonlocal node
                    for c in node.conns:
                        c.kill()
                    orphaned()
                    node = Process(grid, directory)
                    node.up()

                def step(f):
                    try:
                        f()
                    except zk.Crash:
                        pass
                    if faults.dead:
                        crash()
                    observe()

                step(lambda: node.up())
                while True:
                    made = [op for op in node.tahoe.pending if op.name == "make_directory"]
                    events = ["stop"]
                    if budget["requests"]:
                        events.append("request")
                    for i in range(len(made)):
                        events.append("made %d" % i)
                        if budget["failures"]:
                            events.append("not made %d" % i)
                            events.append("made %d but answer lost" % i)
                    if budget["restarts"]:
                        events.append("crash")
                    e = ch.pick(events, "event")
                    if e == "stop":
                        break
                    if e == "request":
                        budget["requests"] -= 1
                        step(request)
                    elif e == "crash":
                        budget["restarts"] -= 1
                        step(crash)
                    elif e.startswith("made") and e.endswith("lost"):
                        budget["failures"] -= 1
                        step(made[int(e.split()[1])].lost)
                    elif e.startswith("made"):
                        step(made[int(e.split()[1])].ok)
                    else:
                        budget["failures"] -= 1
                        step(made[int(e.split()[2])].fail)

                # In the end it is possible to set up replication.
                box["armed"] = False
                for _ in range(20):
                    made = [op for op in node.tahoe.pending if op.name == "make_directory"]
                    if not made:
                        break
                    step(made[0].ok)
                check(not node.requests, "a request was never answered")
                step(request)
                for op in list(node.tahoe.pending):
                    if op.name == "make_directory":
                        step(op.ok)
                check(not node.requests, "a request was never answered")
                check(answers, "replication can no longer be set up")
                for _ in range(40):
                    ops = replica_ops()
                    if not ops:
                        break
                    step(ops[0].ok)
                live = [k for k, children in grid.dirs.items() if children]
                check(
                    live == [answers[0]],
                    "what the node writes is not what the capability reads",
                    written=live,
                    returned=answers[0],
                )
                check("snapshot" in grid.dirs[answers[0]], "there is no snapshot in the replica")
                step(request)
                check(not node.requests, "a request was never answered")
                return "%d answers" % len(answers)
        finally:
            node.close()
            shutil.rmtree(directory, ignore_errors=True)

    return scenario


CHECK = Check(
    "P05",
    "fault_enumeration",
    "all interleavings of set-up requests, directory creations, failures and crashes at every file operation",
    [
        "a crash is the end of the process: what was written to a file and flushed is kept",
        "the lock of a process that died is recognized as stale by its process number",
    ],
    [
        Scenario(
            "requests",
            setup,
            quick=dict(requests=4, failures=2, restarts=1, crashes=0, errors=0),
            thorough=dict(requests=6, failures=3, restarts=2, crashes=0, errors=0),
        ),
        Scenario(
            "crashes",
            setup,
            quick=dict(requests=3, failures=1, restarts=1, crashes=2, errors=0),
            thorough=dict(requests=4, failures=1, restarts=2, crashes=3, errors=0),
        ),
        Scenario(
            "errors",
            setup,
            quick=dict(requests=3, failures=1, restarts=0, crashes=1, errors=2),
            thorough=dict(requests=4, failures=1, restarts=1, crashes=2, errors=3),
        ),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
