"""
T01: Tahoe-LAFS client operations are atomic, retried and discreet.
"""

import io
import json
import os
import re
import sys

import tahoe_capabilities as tc
from twisted.internet import error
from twisted.internet.defer import Deferred
from twisted.logger import eventAsText, globalLogPublisher
from twisted.python.failure import Failure
from twisted.python.filepath import FilePath

from _zkapauthorizer import tahoe as T

from mc import http, zk
from mc.core import Pruned, check
from mc.files import FileFaults
from mc.node import Connection, Node, Response, raw_request, TOKEN
from mc.runner import Check, Scenario
from mc.ws import frame

# ------------------------------------------------------------- capabilities


def b(n, w):
    return bytes((7 * n + 13 * i + 1) % 256 for i in range(w))


def chk(n, size=100):
    return tc.CHKRead.derive(b(n, 16), b(n + 1, 32), 3, 10, size)


def ssk(n):
    return tc.SSKWrite.derive(b(n, 16), b(n + 1, 32))


def mdmf(n):
    return tc.MDMFWrite.derive(b(n, 16), b(n + 1, 32))


def real(cap):
    return tc.danger_real_capability_string(cap)


FILES = {
    "CHK": chk(1),
    "LIT": tc.LiteralRead(b"a literal with a secret in it"),
    "SSK-RO": ssk(3).reader,
}
DIR_READ = {
    "DIR2-RO": tc.SSKDirectoryWrite(ssk(5)).reader,
    "DIR2-MDMF-RO": tc.MDMFDirectoryWrite(mdmf(7)).reader,
    "DIR2-CHK": tc.CHKDirectoryRead(chk(9)),
}
DIR_WRITE = {"DIR2": tc.SSKDirectoryWrite(ssk(11)), "DIR2-MDMF": tc.MDMFDirectoryWrite(mdmf(13))}
# what can be linked
TARGETS = dict(FILES)
TARGETS.update({"SSK": ssk(15), "DIR2-RO": DIR_READ["DIR2-RO"], "DIR2": DIR_WRITE["DIR2"]})
NAMES = ["snapshot", "event-stream-17", "a b", "a/b", "\u00e9\u20ac", "%41", "..", "a?b#c", ":", "x" * 200, "+&=;"]


def secrets(*caps):
    """
    The parts of capability strings which grant something.
    """
    out = set()
    for cap in caps:
        out.add(real(cap).split(":")[2])
    return out


def everything_secret():
    caps = list(TARGETS.values()) + list(DIR_READ.values()) + list(DIR_WRITE.values())
    return secrets(*caps)


class Log:
    """
    Everything that is logged meanwhile.
    """

    def __enter__(self):
        import eliot

        self.text = []
        self.observer = lambda event: self.text.append(eventAsText(event))
        globalLogPublisher.addObserver(self.observer)
        self.eliot = lambda message: self.text.append(repr(message))
        eliot.add_destinations(self.eliot)
        return self

    def __exit__(self, *a):
        import eliot

        globalLogPublisher.removeObserver(self.observer)
        eliot.remove_destination(self.eliot)

    def forbid(self, hidden, *more):
        text = "\n".join(self.text + [str(m) for m in more])
        for s in hidden:
            check(s not in text, "a capability secret appears in an error or log", secret=s, text=text[-3000:])


def tell(f):
    """
    All that is likely to be told of a failure.
    """
    e = f.value
    return [str(e), repr(e), f.getErrorMessage(), f.getTraceback(), f.getBriefTraceback(), repr(e.args), "%s" % (f,)]


# ------------------------------------------------------------- the gateway

SNAPSHOT = FILES["CHK"]


def listing():
    sub = DIR_READ["DIR2-RO"]
    return json.dumps(
        [
            "dirnode",
            {
                "ro_uri": "URI:x",
                "mutable": True,
                "children": {
                    "snapshot": ["filenode", {"ro_uri": real(SNAPSHOT), "size": 12345, "mutable": False, "format": "CHK"}],
                    "e 1/2 \u20ac": ["filenode", {"ro_uri": real(FILES["LIT"]), "size": 0, "mutable": False}],
                    "sub": ["dirnode", {"ro_uri": real(sub), "rw_uri": real(DIR_WRITE["DIR2"]), "mutable": True}],
                },
            },
        ]
    ).encode()


LISTING = {
    "snapshot": T.FileNode(12345, SNAPSHOT),
    "e 1/2 \u20ac": T.FileNode(0, FILES["LIT"]),
    "sub": T.DirectoryNode(DIR_READ["DIR2-RO"]),
}
CONTENT = b"The downloaded content, \0\xff\r\n and more." * 3

NO_SERVERS = b"Traceback (most recent call last):\nallmydata.interfaces.NoServersError: no servers\n"
NOT_ENOUGH = b"...\nallmydata.mutable.common.NotEnoughServersError: ('Publish ran out of good servers', ...)\n"
NOT_WRITEABLE = b"...\nallmydata.mutable.common.NotWriteableError: \n"
NO_CHILDREN = b"<html><h1>Files have no children named u'x'</h1></html>"

# name -> (transient for the operations which are retried) how a connection ends early
TRANSIENT = {
    "refused": None,
    "no servers": (500, NO_SERVERS),
    "no servers, 503": (503, NO_SERVERS),
    "not enough": (500, NOT_ENOUGH),
}
ERRORS = {
    "404": (404, b"No such child: x"),
    "400": (400, b"bad"),
    "410": (410, b"NotEnoughSharesError: This indicates that some servers were unavailable"),
    "500": (500, b"Traceback: something"),
    "503": (503, b""),
    "302": (304, b""),
    "not writeable": (500, NOT_WRITEABLE),
    "no children": (400, NO_CHILDREN),
    "not writeable, 400": (400, NOT_WRITEABLE),
    "no children, 500": (500, NO_CHILDREN),
}
CONNECT = {
    "timeout": error.TimeoutError(),
    "no route": error.NoRouteError(),
    "reset": error.ConnectError(),
}
BROKEN = ["lost at once", "lost in headers", "garbage", "short", "short chunks", "headers only"]
BAD = ["empty", "other json", "not utf-8", "other cap", "verify cap", "half", "html"]
GOOD = ["whole", "chunked", "bytes", "201", "204"]


class Operation:
    """
    :ivar start: () -> coroutine
    :ivar request: (method, path, query, body) to expect
    :ivar content: what the gateway answers
    :ivar value: what the operation then returns
    :ivar hidden: capabilities involved
    """

    retried = True
    plain = False
    reads = True

    def __init__(self, start, request, content, value, hidden):
        self.start, self.request, self.content, self.value, self.hidden = start, request, content, value, hidden


def provider(kind, data):
    if kind == "memory":
        return lambda: io.BytesIO(data)
    path = zk.fresh_path("upload")
    with open(path, "wb") as f:
        f.write(data)
    return lambda: open(path, "rb")


def operation(ch, client, outpath):
    name = ch.pick(["upload", "list", "mkdir", "link", "unlink", "download"], "operation")
    if name == "upload":
        kind = ch.pick(["memory", "file"], "data")
        size = ch.pick([0, 1, 70000], "size")
        data = b(3, 256) * (size // 256 + 1)
        data = data[:size]
        return name, Operation(
            lambda: client.upload(provider(kind, data)),
            ("PUT", ("uri",), [], data),
            real(FILES["CHK"]).encode(),
            FILES["CHK"],
            [FILES["CHK"]],
        )
    if name == "mkdir":
        d = DIR_WRITE["DIR2"]
        return name, Operation(
            client.make_directory, ("POST", ("uri",), [("t", "mkdir")], b""), real(d).encode(), d, [d]
        )
    if name == "list":
        d = DIR_READ[ch.pick(list(DIR_READ), "directory")]
        return name, Operation(
            lambda: client.list_directory(d),
            ("GET", ("uri", real(d), ""), [("t", "json")], b""),
            listing(),
            LISTING,
            [d, SNAPSHOT, FILES["LIT"], DIR_READ["DIR2-RO"], DIR_WRITE["DIR2"]],
        )
    if name == "download":
        c = FILES[ch.pick(list(FILES), "file")]
        op = Operation(lambda: client.download(outpath, c), ("GET", ("uri", real(c)), [], b""), CONTENT, None, [c])
        op.retried = False
        return name, op
    d = DIR_WRITE[ch.pick(list(DIR_WRITE), "directory")]
    entry = ch.pick(NAMES, "entry")
    if name == "link":
        # all names with one capability and all capabilities with one name
        t = TARGETS[ch.pick(list(TARGETS) if entry == NAMES[0] else ["CHK"], "target")]
        op = Operation(
            lambda: client.link(d, entry, t),
            ("PUT", ("uri", real(d), entry), [("t", "uri")], real(t).encode()),
            real(t).encode(),
            None,
            [d, t],
        )
    else:
        op = Operation(
            lambda: client.unlink(d, entry), ("DELETE", ("uri", real(d), entry), [], b""), real(FILES["CHK"]).encode(), None, [d]
        )
    op.reads = False
    op.plain = entry != NAMES[0]
    return name, op


def bad_content(kind, op):
    return {
        "empty": b"",
        "other json": b'["filenode", {}]',
        "not utf-8": b"\xff\xfe not text",
        "other cap": b"URI:DIR2-LIT:aaaa",
        "verify cap": real(FILES["CHK"]).replace("CHK", "CHK-Verifier").encode(),
        "half": op.content[: len(op.content) // 2],
        "html": b"<html>" + op.content + b"</html>",
    }[kind]


def accept(server, op):
    """
    Take the next request, which must be the expected one.
    """
    check(server.waiting() == 1, "no request, or several, are being made", waiting=server.waiting())
    ex = server.next()
    check((ex.host, ex.port) == ("127.0.0.1", 3456), "the request is made to another place", host=ex.host, port=ex.port)
    ex.accept()
    r = ex.request()
    method, path, query, body = op.request
    got = (r.method.decode(), r.path, r.query, r.body)
    check(
        r.complete and got == op.request,
        "the request is not as it should be",
        got=(got[0], got[1], got[2], len(got[3]), r.complete),
        want=(method, path, query, len(body)),
    )
    return ex


def answer(ex, kind, op):
    """
    :return: what should become of the operation:  ("ok",), ("api", status, body), ("error",)
    """
    ok = ("ok",)
    if kind in TRANSIENT:
        status, body = TRANSIENT[kind]
        ex.send(http.response(status, body))
        return ("api", status, body)
    if kind in ERRORS:
        status, body = ERRORS[kind]
        ex.send(http.response(status, body))
        return ("api", status, body)
    if kind in BROKEN:
        whole = http.response(200, op.content)
        head = whole.index(b"\r\n\r\n")
        if kind == "lost at once":
            pass
        elif kind == "lost in headers":
            ex.send(whole[: head - 3])
        elif kind == "headers only":
            ex.send(whole[: head + 4])
        elif kind == "garbage":
            ex.send(b"SSH-2.0-OpenSSH_9.6\r\n\r\n")
        elif kind == "short":
            ex.send(whole[: (head + len(whole)) // 2])
        else:
            ex.send(http.response(200, op.content, chunked=True)[:-9])
        if not ex.transport.disconnecting:
            ex.close(error.ConnectionLost())
        return ("error",)
    if kind in BAD:
        body = bad_content(kind, op)
        ex.send(http.response(200, body))
        if kind == "half" and not op.content.startswith(b"["):
            # part of a capability may look like one
            return None
        return ("error",) if op.reads else None
    if kind == "whole":
        ex.send(http.response(200, op.content))
    elif kind == "chunked":
        ex.send(http.response(200, op.content, chunked=True))
    elif kind == "bytes":
        for c in http.response(200, op.content):
            ex.send(bytes([c]))
    elif kind == "201":
        ex.send(http.response(201, op.content if op.request[0] == "PUT" and not op.request[2] else b"created"))
        return None
    elif kind == "204":
        ex.send(b"HTTP/1.1 204 No Content\r\n\r\n")
        return ("error",)
    return ok


def make_client(server):
    d = zk.fresh_path("tahoe-node")
    os.makedirs(os.path.join(d, "private"))
    with open(os.path.join(d, "node.url"), "w") as f:
        f.write("http://127.0.0.1:3456/\n")
    from allmydata.client import config_from_string

    return T.get_tahoe_client(server.reactor, config_from_string(d, "tub.port", ""))


def operations(bounds):
    def scenario(ch):
        http.install()
        server = http.Server()
        client = make_client(server)
        outpath = FilePath(zk.fresh_path("out"))
        name, op = operation(ch, client, outpath)
        if ch.choose(2, "destination exists"):
            if name != "download":
                raise Pruned()
            outpath.setContent(b"old")
        old = outpath.getContent() if outpath.exists() else None
        hidden = secrets(*op.hidden)
        out = []
        with Log() as log:
            Deferred.fromCoroutine(op.start()).addBoth(out.append)
            made = 0
            transients = bounds["transients"] if not op.plain else 0
            for i in range(transients + 1):
                kinds = GOOD + BAD + BROKEN + list(ERRORS) + list(CONNECT)
                if name == "download":
                    kinds = [k for k in kinds if k not in BAD]
                kinds = GOOD if op.plain else (list(TRANSIENT) if i < transients else []) + kinds
                if i == 0 and not op.plain:
                    kinds.append("refused for long")
                kind = ch.pick(kinds, "answer")
                made += 1
                if kind == "refused for long":
                    for _ in range(bounds["long"]):
                        check(not out, "an operation gives up while the gateway is starting", out=repr(out))
                        check(server.waiting() == 1, "no request is being made")
                        server.next().refuse()
                        if not op.retried:
                            break
                    expect = ("error",)
                    retry = op.retried
                elif kind == "refused" or kind in CONNECT:
                    check(server.waiting() == 1, "no request, or several, are being made", waiting=server.waiting())
                    server.next().refuse(CONNECT.get(kind))
                    expect = ("error",)
                    retry = kind == "refused" and op.retried
                else:
                    ex = accept(server, op)
                    expect = answer(ex, kind, op)
                    retry = kind in TRANSIENT and op.retried
                if name == "unlink" and kind == "no children":
                    expect = (T.NotADirectoryError,)
                if name in ("link", "unlink") and kind == "not writeable":
                    expect = (T.NotWriteableError,)
                if kind == "201":
                    # success or not, but truly
                    expect = ("ok",) if name == "upload" else None
                if kind == "204" and not op.reads:
                    # the gateway did it
                    expect = None
                if retry or (server.waiting() and not out and kind != "whole"):
                    check(not out, "a transient failure is not retried", kind=kind, out=repr(out))
                    check(server.waiting() == 1, "a transient failure is not retried", kind=kind)
                    expect = None
                    continue
                check(len(out) == 1, "an operation does not end with its answer", kind=kind)
                check(server.waiting() == 0, "a finished operation makes requests", kind=kind)
                break
            else:
                kind = "(none)"
            # -- the verdict
            texts = []
            failed = bool(out) and isinstance(out[0], Failure)
            if failed:
                f = out[0]
                texts = tell(f)
            if expect is not None:
                if expect == ("ok",):
                    check(not failed, "an operation fails although the gateway did it", kind=kind, text=texts[:1])
                    check(out[0] == op.value, "the result of an operation is not what the gateway said", kind=kind)
                else:
                    check(failed, "an operation reports success although the gateway did not", kind=kind, out=repr(out))
                    if expect[0] == "api":
                        e = f.value
                        check(
                            isinstance(e, T.TahoeAPIError) and (e.status, e.body) == (expect[1], expect[2].decode()),
                            "an error of the gateway is not reported as it is",
                            kind=kind,
                            text=texts,
                        )
                    elif expect[0] != "error":
                        check(f.check(expect[0]), "an error of the gateway is reported as another", kind=kind, text=texts)
            if name == "download":
                now = outpath.getContent() if outpath.exists() else None
                check(
                    now == (CONTENT if out and not failed else old),
                    "the destination is not what it should be",
                    kind=kind,
                    now=now,
                )
            # (an answer of the gateway is told as it is)
            log.forbid([s for s in hidden if s not in real(FILES["CHK"]) or kind not in BAD], *texts)
            if failed:
                # as a caller would report it
                from twisted.logger import Logger

                Logger().failure("failed", f)
                log.forbid([s for s in hidden if s not in real(FILES["CHK"]) or kind not in BAD])
        return "%s %s" % (name, "waiting" if not out else type(getattr(out[0], "value", None)).__name__ if failed else "ok")

    return scenario


# ------------------------------------------------------------- download, with file faults


def downloads(bounds):
    """
    One or two downloads to one place; chunks arrive in every order; file operations
    fail, or the process dies, anywhere.
    """

    def scenario(ch):
        http.install()
        server = http.Server()
        client = make_client(server)
        root = zk.fresh_path("downloads")
        os.makedirs(root)
        outpath = FilePath(os.path.join(root, "dest"))
        old = None
        if ch.choose(2, "destination exists"):
            old = b"what was there before"
            outpath.setContent(old)
        n = 1 + ch.choose(bounds["downloads"], "downloads")
        caps = [chk(20 + i) for i in range(n)]
        contents = [bytes([65 + i]) * 40 for i in range(n)]
        budget = {"fault": bounds["faults"], "crash": 1}

        def hook(kind, path, partly):
            options = ["-"]
            if budget["fault"]:
                options.append("fail")
                if partly:
                    options.append("fail half way")
            if budget["crash"]:
                options.append("crash")
                if partly:
                    options.append("crash half way")
            o = ch.pick(options, "%s %s" % (kind, path[:4]))
            if o == "-":
                return
            if partly and "half" in o:
                partly(1)
            if "crash" in o:
                budget["crash"] = 0
                raise zk.Crash()
            budget["fault"] -= 1
            raise OSError(28, "No space left on device")

        outs = [[] for _ in range(n)]
        done = set()

        def allowed():
            now = outpath.getContent() if outpath.exists() else None
            good = [contents[i] for i in done]
            check(
                now == old or now in contents,
                "the destination is neither what it was nor the complete content",
                now=now,
            )
            if done:
                check(now in [contents[i] for i in range(n)], "a download succeeded but the destination is old", now=now)

        faults = FileFaults(root, hook)
        crashed = False
        with faults:
            try:
                exchanges = []
                for i in range(n):
                    Deferred.fromCoroutine(client.download(outpath, caps[i])).addBoth(outs[i].append)
                    ex = server.next()
                    ex.accept()
                    whole = http.response(200, contents[i])
                    cut = len(whole) - 20
                    exchanges.append([ex, [whole[:cut], whole[cut:]]])
                while any(parts for _, parts in exchanges):
                    i = ch.pick([i for i in range(n) if exchanges[i][1]], "next chunk of")
                    ex, parts = exchanges[i]
                    o = ch.pick(["arrives", "lost"] if len(parts) == 1 else ["arrives"], "chunk")
                    if o == "lost":
                        parts[:] = []
                        ex.close(error.ConnectionLost())
                    elif not ex.transport.disconnecting:
                        ex.send(parts.pop(0))
                    else:
                        # the client gave up
                        parts[:] = []
                        ex.close()
                    if faults.dead:
                        raise zk.Crash()
                    for j in range(n):
                        if outs[j] and not isinstance(outs[j][0], Failure):
                            done.add(j)
                    allowed()
            except zk.Crash:
                crashed = True
        allowed()
        if not crashed:
            for i in range(n):
                check(outs[i], "a download does not end")
                if isinstance(outs[i][0], Failure) and not outs[i][0].check(OSError):
                    outs[i][0].getTraceback()
            if not done:
                now = outpath.getContent() if outpath.exists() else None
                check(now == old, "no download succeeded but the destination changed", now=now)
        # Another try, without failures, succeeds.
        out = []
        Deferred.fromCoroutine(client.download(outpath, caps[0])).addBoth(out.append)
        ex = server.next()
        ex.accept()
        ex.send(http.response(200, contents[0]))
        check(out == [None] and outpath.getContent() == contents[0], "a download after a failure fails", out=repr(out))
        return "crashed" if crashed else "done %d of %d" % (len(done), n)

    return scenario


# ------------------------------------------------------------- children


def children(bounds):
    """
    ``download_child`` through nested directories.
    """
    top, sub, rw = tc.SSKDirectoryWrite(ssk(31)), tc.MDMFDirectoryWrite(mdmf(33)), tc.SSKDirectoryWrite(ssk(35))
    tree = {
        real(top.reader): {"f": ("filenode", chk(37)), "sub": ("dirnode", sub.reader), "other": ("dirnode", rw.reader)},
        real(sub.reader): {"f": ("filenode", chk(38)), "sub": ("dirnode", rw.reader)},
        real(rw.reader): {"f": ("filenode", chk(39)), "other": ("filenode", chk(40))},
    }
    contents = {real(chk(n)): b"content of %d" % n for n in (37, 38, 39, 40)}
    hidden = secrets(top, top.reader, sub, sub.reader, rw, rw.reader, *[chk(n) for n in (37, 38, 39, 40)])

    def find(path):
        cap = top.reader
        kind = "dirnode"
        for p in path:
            if kind != "dirnode" or p not in tree[real(cap)]:
                return None
            kind, cap = tree[real(cap)][p]
        return contents[real(cap)] if kind == "filenode" else None

    def scenario(ch):
        http.install()
        server = http.Server()
        client = make_client(server)
        outpath = FilePath(zk.fresh_path("out"))
        outpath.setContent(b"old")
        path = []
        for _ in range(ch.choose(bounds["depth"] + 1, "length")):
            path.append(ch.pick(["f", "sub", "other", "missing"], "name"))
        fail_at = ch.choose(bounds["depth"] + 3, "request which fails")
        out = []
        served = 0
        with Log() as log:
            Deferred.fromCoroutine(T.download_child(outpath, client, top.reader, path)).addBoth(out.append)
            while server.waiting():
                ex = server.next()
                ex.accept()
                r = ex.request()
                served += 1
                cap = r.path[1]
                check(r.method == b"GET" and (cap in tree or cap in contents), "a strange request", path=r.path)
                if served == fail_at:
                    ex.send(http.response(410, b"NotEnoughSharesError"))
                elif cap in tree:
                    ex.send(
                        http.response(
                            200,
                            json.dumps(
                                [
                                    "dirnode",
                                    {"children": {n: [k, {"ro_uri": real(c), "size": 1}] for n, (k, c) in tree[cap].items()}},
                                ]
                            ).encode(),
                        )
                    )
                else:
                    ex.send(http.response(200, contents[cap]))
            want = find(path)
            check(len(out) == 1, "the download does not end")
            failed = isinstance(out[0], Failure)
            should_fail = want is None or 0 < fail_at <= len(path) + 1
            check(failed == should_fail, "failed" if failed else "succeeded", path=path, fail_at=fail_at, out=repr(out))
            check(
                outpath.getContent() == (b"old" if failed else want),
                "the destination is not what it should be",
                path=path,
                now=outpath.getContent(),
            )
            log.forbid(hidden, *(tell(out[0]) if failed else []))
        return "failed" if failed else "ok"

    return scenario


# ------------------------------------------------------------- what a node tells


def reports(bounds):
    """
    A node sets up replication, or recovers, with a gateway which fails.
    """

    def scenario(ch):
        http.install()
        server = http.Server()
        node = Node()
        with open(os.path.join(node.dir, "node.url"), "w") as f:
            f.write("http://127.0.0.1:3456/\n")
        node.tahoe = T.get_tahoe_client(server.reactor, node.config)
        rw = DIR_WRITE["DIR2"]
        ro = DIR_READ["DIR2-RO"]
        hidden = everything_secret() | secrets(rw, rw.reader)
        what = ch.pick(["replicate", "recover"], "request")
        try:
            with Log() as log:
                root = node.resource()
                if what == "replicate":
                    conn = Connection(root)
                    conn.send(raw_request(b"POST", b"/replicate"))
                else:
                    conn = Connection(root)
                    raw = raw_request(b"GET", b"/recover").replace(b"Connection: close", b"Connection: Upgrade")
                    conn.send(
                        raw[:-2]
                        + b"Upgrade: websocket\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n"
                    )
                    conn.transport.protocol.dataReceived(frame(1, json.dumps({"recovery-capability": real(ro)}).encode()))
                served = 0
                while server.waiting() and served < 5:
                    served += 1
                    ex = server.next()
                    kind = ch.pick(["good"] + list(ERRORS) + list(CONNECT) + BROKEN[:2], "answer %d" % served)
                    if kind in CONNECT:
                        ex.refuse(CONNECT[kind])
                        continue
                    ex.accept()
                    r = ex.request()
                    op = Operation(None, None, b"x" * 10, None, None)
                    if kind != "good":
                        answer(ex, kind, op)
                    elif r.method == b"POST":
                        ex.send(http.response(200, real(rw).encode()))
                    elif r.query:
                        ex.send(http.response(200, listing()))
                    else:
                        ex.send(http.response(200, b"not a snapshot"))
                told = conn.received()
                if what == "replicate" and told.startswith(b"HTTP/1.1 201"):
                    ok = real(rw.reader).encode()
                    check(Response(told).json() == {"recovery-capability": ok.decode()}, "replication is answered strangely")
                    hidden -= secrets(rw.reader)
                else:
                    check(what == "recover" or b"500" in told[:20], "a failure is not reported", told=told)
                log.forbid(hidden, told)
            return "%s %d" % (what, served)
        finally:
            node.close()

    return scenario


CHECK = Check(
    "T01",
    "fault_enumeration",
    "the real client, through Twisted's real HTTP client on memory connections: every operation with every kind of "
    "capability, after every sequence of transient failures, with every way for the gateway to answer or fail; downloads "
    "with every interleaving of arriving data, every failing file operation and every crash point; all that is logged or "
    "reported is searched for the secrets of the capabilities",
    [
        "the gateway's own error pages do not repeat capabilities",
        "the gateway gives the length of what it sends, as Tahoe-LAFS does: an answer without one which is cut short "
        "cannot be told from a complete one",
    ],
    [
        Scenario("operations", operations, dict(transients=1, long=50), dict(transients=2, long=500)),
        Scenario("downloads", downloads, dict(downloads=2, faults=1), dict(downloads=3, faults=2)),
        Scenario("children", children, dict(depth=3), dict(depth=4)),
        Scenario("reports", reports, {}),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
