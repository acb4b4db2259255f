"""
H01: nothing private is reachable without the token.
"""

import base64
import os

from mc import zk
from mc.core import check
from mc.grid import Client, Grid
from mc.node import Connection, Node, Response, TOKEN, raw_request
from mc.runner import Check, Scenario

V = zk.voucher_number("h01")
V2 = zk.voucher_number("h01/2")
UPGRADE = [
    (b"Upgrade", b"websocket"),
    (b"Sec-WebSocket-Key", b"dGhlIHNhbXBsZSBub25jZQ=="),
    (b"Sec-WebSocket-Version", b"13"),
]

# what the token file says -> the token
CONFIGS = {
    "plain": (TOKEN.encode(), TOKEN.encode()),
    "newline": (TOKEN.encode() + b"\n", TOKEN.encode()),
    "spaces inside": (b"two words", b"two words"),
    "not ascii": ("t\u00f6k\u00e9n".encode("utf-8"), "t\u00f6k\u00e9n".encode("utf-8")),
    "short": (b"a", b"a"),
    "changed": (b"quite-another-token", b"quite-another-token"),
}


def b64(b):
    return base64.b64encode(b)


# name -> token -> [Authorization header], is that the token?  (None: either way)
FORMS = {
    "none": lambda t: ([], False),
    "empty": lambda t: ([b""], False),
    "scheme only": lambda t: ([b"tahoe-lafs"], False),
    "scheme and space": lambda t: ([b"tahoe-lafs "], False),
    "token only": lambda t: ([t], False),
    "good": lambda t: ([b"tahoe-lafs " + t], True),
    "good, other case of scheme": lambda t: ([b"Tahoe-LAFS " + t], None),
    "first half": lambda t: ([b"tahoe-lafs " + t[: len(t) // 2]], False),
    "all but the last": lambda t: ([b"tahoe-lafs " + t[:-1]], False),
    "all but the first": lambda t: ([b"tahoe-lafs " + t[1:]], False),
    "longer": lambda t: ([b"tahoe-lafs " + t + b"x"], False),
    "twice": lambda t: ([b"tahoe-lafs " + t + t], False),
    "list": lambda t: ([b"tahoe-lafs " + t + b"," + t], False),
    "other case": lambda t: ([b"tahoe-lafs " + t.swapcase()], False),
    "last bit": lambda t: ([b"tahoe-lafs " + t[:-1] + bytes([t[-1] ^ 1])], False),
    "first bit": lambda t: ([b"tahoe-lafs " + bytes([t[0] ^ 1]) + t[1:]], False),
    "quoted": lambda t: ([b'tahoe-lafs "' + t + b'"'], False),
    "encoded": lambda t: ([b"tahoe-lafs " + b64(t)], False),
    "zero byte": lambda t: ([b"tahoe-lafs " + t + b"\0"], False),
    "zero byte first": lambda t: ([b"tahoe-lafs \0" + t], False),
    "two spaces": lambda t: ([b"tahoe-lafs  " + t], None),
    "tab": lambda t: ([b"tahoe-lafs\t" + t], None),
    "equals sign": lambda t: ([b"tahoe-lafs=" + t], False),
    "parameter": lambda t: ([b"tahoe-lafs token=" + t], False),
    "basic": lambda t: ([b"Basic " + b64(b":" + t)], False),
    "basic, plain": lambda t: ([b"Basic " + t], False),
    "bearer": lambda t: ([b"Bearer " + t], False),
    "digest": lambda t: ([b'Digest username="", response="' + t + b'"'], False),
    "other scheme": lambda t: ([b"tahoe-lafs2 " + t], False),
    "not text": lambda t: ([b"tahoe-lafs \xff\xfe" + t], False),
    "other token": lambda t: ([b"tahoe-lafs " + b"y" * len(t)], False),
    "empty bytes": lambda t: ([b"tahoe-lafs b''"], False),
    "None": lambda t: ([b"tahoe-lafs None"], False),
    "bad then good": lambda t: ([b"tahoe-lafs x", b"tahoe-lafs " + t], None),
    "good then bad": lambda t: ([b"tahoe-lafs " + t, b"tahoe-lafs x"], None),
    "bad then bad": lambda t: ([b"tahoe-lafs x", b"tahoe-lafs y"], False),
}

PATHS = [
    b"/", b"//", b"/voucher", b"/voucher/", b"/voucher/" + V, b"/voucher/" + V2, b"/voucher/x", b"/voucher/%ff",
    b"/lease-maintenance", b"/lease-maintenance/x", b"/version", b"/version/", b"/version/x", b"/calculate-price",
    b"/recover", b"/recover/x", b"/replicate", b"/replicate/x", b"/unknown", b"//voucher", b"/./voucher",
    b"/x/../voucher", b"/%76oucher", b"/VOUCHER", b"/voucher?t=json", b"/version?token=@", b"/version?api_auth_token=@",
    b"http://localhost/voucher", b"/replicate;x", b"*",
]
METHODS = [b"GET", b"HEAD", b"POST", b"PUT", b"DELETE", b"OPTIONS", b"PATCH", b"get", b"X"]
BODIES = {
    b"PUT": b'{"voucher": "%s"}' % V2,
    b"POST": b'{"version": 1, "sizes": [1]}',
    b"PATCH": b"{}",
}
JSON = (b"Content-Type", b"application/json")

# (method, path) -> status with the token
KNOWN = {
    (b"GET", b"/voucher"): 200,
    (b"PUT", b"/voucher"): 200,
    (b"GET", b"/voucher/" + V): 200,
    (b"GET", b"/voucher/" + V2): 404,
    (b"GET", b"/lease-maintenance"): 200,
    (b"GET", b"/version"): 200,
    (b"POST", b"/calculate-price"): 200,
    (b"POST", b"/replicate"): 201,
    (b"GET", b"/unknown"): 404,
}


class World(Node):
    def __init__(self, config):
        Node.__init__(self)
        self.grid = Grid()
        self.tahoe = Client(self.grid, os.path.join(self.dir, "private"), immediate=True)
        content, self.token = CONFIGS[config]
        first = b"the-token-before" if config == "changed" else content
        self.write(first)
        self.root = self.resource()
        store = self.root.store
        store.add(V, 2, 0, lambda: [zk.random_token("h01/%d" % i) for i in range(2)])
        if config == "changed":
            conn = Connection(self.root)
            conn.send(raw_request(b"GET", b"/version", [(b"Authorization", b"tahoe-lafs " + first)], token=None))
            self.write(content)

    def write(self, token):
        with open(os.path.join(self.dir, "private", "api_auth_token"), "wb") as f:
            f.write(token)

    def state(self):
        """
        Everything a request could change.
        """
        files = {}
        for d, _, names in os.walk(self.dir):
            for n in names:
                p = os.path.join(d, n)
                if n.endswith("sqlite3"):
                    files[n] = zk.dump(p)
                else:
                    with open(p, "rb") as f:
                        files[n] = f.read()
        return (
            files,
            repr(self.grid.dirs),
            len(self.tahoe.performed),
            len(self.reactor.getDelayedCalls()),
            len(self.reactor.tcpClients),
            sorted((v.number, repr(self.root.controller.get_voucher(v.number).state)) for v in self.root.store.list()),
        )


def send(root, method, path, authorization, websocket=False, token=b""):
    headers = [(b"Authorization", h) for h in authorization]
    body = BODIES.get(method, b"")
    if body:
        headers.append(JSON)
    raw = raw_request(method, path.replace(b"@", token), headers, body, token=None)
    if websocket:
        raw = raw.replace(b"Connection: close", b"Connection: Upgrade")
        head, sep, rest = raw.partition(b"\r\n\r\n")
        raw = head + b"".join(b"\r\n%s: %s" % h for h in UPGRADE) + sep + rest
    conn = Connection(root)
    conn.send(raw)
    raw = conn.received()
    return Response(raw) if raw else None


def requests(b):
    def scenario(ch):
        config = ch.pick(b["configs"], "token")
        form = ch.pick(list(FORMS), "authorization")
        path = ch.pick(PATHS, "path")
        websocket = bool(ch.choose(2, "websocket")) if path.startswith(b"/recover") else False
        world = World(config)
        done = 0
        try:
            headers, good = FORMS[form](world.token)
            if config != "plain" and form == "other case" and world.token.swapcase() == world.token:
                good = None
            before = world.state()
            for method in METHODS:
                r = send(world.root, method, path, headers, websocket, world.token)
                done += 1
                after = world.state()
                where = dict(method=method, path=path, response=repr(r), headers=headers)
                if good is None:
                    good_now = r is None or r.status != 401
                else:
                    good_now = good
                if good_now is False:
                    # the server itself refuses what is no request at all, and answers "OPTIONS *"
                    wellformed = method in METHODS[:7] and path.startswith(b"/") and b"\0" not in b"".join(headers)
                    check(
                        r is not None and (r.status == 401 or (not wellformed and r.status >= 400) or path == b"*"),
                        "a request without the token is not refused with 401",
                        **where
                    )
                    check(after == before, "a request without the token has an effect", **where)
                    for secret in (world.token, V, V2):
                        if len(secret) > 8 and secret not in path:
                            check(
                                secret not in r.raw or secret in b"".join(headers),
                                "the answer to a request without the token tells a secret",
                                **where
                            )
                elif good is True:
                    check(r is None or r.status != 401, "a request with the token is refused", **where)
                    want = KNOWN.get((method, path))
                    if path == b"/recover" and method == b"GET" and websocket:
                        want = 101
                    if want is not None:
                        got = None if r is None else r.status
                        check(got == want, "a request with the token does not reach the resource", want=want, **where)
                before = after
            return "%s: %d requests" % ({True: "token", False: "no token", None: "either"}[good], done)
        finally:
            world.close()

    return scenario


def split(raw):
    """
    The responses on a connection.
    """
    out = []
    while raw:
        head, sep, rest = raw.partition(b"\r\n\r\n")
        if not sep:
            break
        r = Response(head + sep)
        if b"content-length" in r.headers:
            n = int(r.headers[b"content-length"][0])
        elif r.headers.get(b"transfer-encoding") == [b"chunked"]:
            n = 0
            while True:
                line = rest[n:].split(b"\r\n")[0]
                n += len(line) + 2 + int(line, 16) + 2
                if int(line, 16) == 0:
                    break
        else:
            n = len(rest)
        out.append(Response(head + sep + rest[:n]))
        raw = rest[n:]
    return out


def connections(b):
    """
    Requests with and without the token on one connection.
    """
    kinds = {"good": [b"tahoe-lafs " + TOKEN.encode()], "none": [], "wrong": [b"tahoe-lafs x" + TOKEN.encode()]}
    what = [(b"PUT", b"/voucher"), (b"GET", b"/voucher"), (b"POST", b"/replicate"), (b"GET", b"/unknown")]

    def scenario(ch):
        world = World("plain")
        try:
            plan = []
            raws = []
            for i in range(b["requests"]):
                kind = ch.pick(list(kinds), "authorization")
                method, path = ch.pick(what, "request")
                plan.append((kind, method, path))
                body = BODIES.get(method, b"")
                headers = [(b"Authorization", h) for h in kinds[kind]] + ([JSON] if body else [])
                raws.append(raw_request(method, path, headers, body, token=None).replace(b"Connection: close\r\n", b""))
            conn = Connection(world.root)
            effects = []
            for raw in raws:
                before = world.state()
                conn.send(raw)
                effects.append(world.state() != before)
            answers = split(conn.received())
            check(len(answers) == len(plan), "not every request was answered", plan=plan, answers=answers)
            for i, (kind, method, path) in enumerate(plan):
                check(
                    (answers[i].status == 401) == (kind != "good"),
                    "an answer does not agree with the token of its request",
                    plan=plan,
                    answers=answers,
                )
                if kind != "good":
                    check(not effects[i], "a request without the token has an effect", plan=plan, which=i)
            done = {(m, p) for k, m, p in plan if k == "good"}
            known = {v.number for v in world.root.store.list()}
            check((V2 in known) == ((b"PUT", b"/voucher") in done), "a voucher was stored without the token", plan=plan)
            check(
                bool(world.grid.dirs) == ((b"POST", b"/replicate") in done),
                "replication was set up without the token",
                plan=plan,
            )
            return "ok"
        finally:
            world.close()

    return scenario


CHECK = Check(
    "H01",
    "exploration",
    "every combination of token file, Authorization header form, path and method is sent through the real HTTP server "
    "protocol to the node's real resource tree; everything a request could change is compared",
    ["the resource tree is served by Twisted Web as Tahoe-LAFS does", "an empty token file is out of scope"],
    [
        Scenario("requests", requests, quick=dict(configs=["plain", "changed"]), thorough=dict(configs=list(CONFIGS))),
        Scenario("connections", connections, quick=dict(requests=2), thorough=dict(requests=3)),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
