"""
Complete Tahoe-LAFS nodes, made by Tahoe-LAFS itself from their configuration, with the
real plugin as Twisted finds it.  The global reactor is one in memory: import this module
before any other.
"""

from allmydata.util import jsonbytes as json
import os
import shutil

from mc import http

R = http.Reactor()

from twisted.internet.main import installReactor  # noqa: E402

installReactor(R)

T0 = 1700000000
R.advance(T0)

from allmydata.client import config_from_string, create_client_from_config  # noqa: E402
from twisted.internet import reactor  # noqa: E402

from _zkapauthorizer import NAME, _plugin  # noqa: E402
from twisted.application.service import MultiService  # noqa: E402
from twisted.internet.address import IPv4Address  # noqa: E402

from mc import wire, zk  # noqa: E402
from mc.node import JSON, TOKEN, Response, raw_request  # noqa: E402
from allmydata.storage.server import StorageServer  # noqa: E402
from allmydata.storage.shares import get_share_file  # noqa: E402
from twisted.internet import error  # noqa: E402
from twisted.python.failure import Failure  # noqa: E402

from mc.ws import Transport  # noqa: E402

assert reactor is R
PLUGIN = _plugin.storage_server_plugin
SECTION = "storageclient.plugins." + NAME
SERVICE = "lease maintenance service"
_keys = {}


_connect = PLUGIN._connect
_conns = []


def connect(path, *a, **kw):
    c = _connect(path, *a, **kw)
    c.execute("pragma synchronous = off")
    _conns.append(c)
    return c


PLUGIN._connect = connect
for f, a, kw in R.whenRunningHooks:
    f(*a, **kw)


def server_id(i):
    return b"v0-" + b"abcdefgh"[i : i + 1] * 51 + b"a"


def power_off():
    """
    All processes end at once: nothing of them is left but files.
    """
    for c in _conns:
        try:
            c.close()
        except Exception:
            pass
    del _conns[:]
    del R.calls[:]
    del R.attempts[:]
    R.tcpClients.clear() if hasattr(R.tcpClients, "clear") else None
    del R.tcpServers[:]
    PLUGIN._stores.clear()
    PLUGIN._service = MultiService()
    PLUGIN._service.startService()
    wire._queue._events[:] = []
    http.install()


def advance(dt):
    R.advance(dt)
    turn()


def turn():
    """Everything which is due now."""
    for _ in range(20):
        wire.settle()
        http.pump()
        R.advance(0)


class Node:
    """
    A client (and storage) node.

    :param settings: of the plugin's section
    :param servers: [announcement] of the static servers
    """

    def __init__(self, settings=(), client=(), servers=(), enabled=True, node=(), extra=(), directory=None, port=1234):
        self.port = port
        self.dir = directory or zk.fresh_path("whole")
        private = os.path.join(self.dir, "private")
        if directory is None:
            os.makedirs(private)
            for name, data in _keys.items():
                self.write("private/" + name, data)
            self.write("private/api_auth_token", TOKEN.encode())
            # as a database which has all of its tables
            shutil.copyfile(zk.template_db(), os.path.join(private, "privatestorageio-zkapauthz-v1.sqlite3"))
            self.write(
                "private/servers.yaml",
                json.dumps(
                    {
                        "storage": {
                            server_id(i).decode(): {"ann": ann} for i, ann in enumerate(servers)
                        }
                    }
                ).encode(),
            )
        lines = ["[node]", "nickname = n", "web.port = tcp:%d" % port] + list(node)
        lines += ["[client]"] + (["storage.plugins = " + NAME] if enabled is True else ["storage.plugins = " + enabled] if enabled else [])
        lines += list(client)
        lines += ["[%s]" % SECTION] + list(settings) + list(extra)
        self.config = config_from_string(self.dir, os.path.join(self.dir, "tub.port"), "\n".join(lines) + "\n")
        out = []
        create_client_from_config(self.config).addBoth(out.append)
        turn()
        if not out:
            raise AssertionError("the node is never made")
        if hasattr(out[0], "raiseException"):
            out[0].raiseException()
        self.client = out[0]
        for name in ("node.pem", "node.privkey"):
            if name not in _keys:
                with open(os.path.join(private, name), "rb") as f:
                    _keys[name] = f.read()

    def write(self, name, data):
        with open(os.path.join(self.dir, name), "wb") as f:
            f.write(data)

    def service(self):
        try:
            return self.client.getServiceNamed(SERVICE)
        except KeyError:
            return None

    def servers(self):
        return self.client.get_storage_broker().servers

    def ask(self, method, path, body=b"", headers=(), token=True):
        """
        Make a request to the web server of the node.

        :return: A function which returns the response, or ``None`` as long as there is
            none.
        """
        if token is True:
            with open(os.path.join(self.dir, "private", "api_auth_token")) as f:
                token = f.read().strip()
        site = self.client.getServiceNamed("webish").site
        site.timeOut = None
        proto = site.buildProtocol(IPv4Address("TCP", "127.0.0.1", 1))
        transport = Transport()
        transport.protocol = proto
        proto.makeConnection(transport)
        proto.dataReceived(raw_request(method, path, headers, body, token))
        turn()

        def response():
            raw = transport.value()
            return Response(raw) if raw and transport.disconnecting else None

        return response

    def web(self, method, path, body=b""):
        """A request to the plugin, which must be answered at once."""
        r = self.ask(method, b"/storage-plugins/" + NAME.encode() + path, body, JSON)()
        assert r is not None, (method, path)
        return r

    def connect(self, i, rref):
        """The connection to a server is made."""
        s = self.servers()[server_id(i)]
        rref.version = {}
        s._got_versioned_service(rref, None)
        return s

    def close(self):
        self.client = None
        shutil.rmtree(self.dir, ignore_errors=True)


def announcement(issuer, furl="pb://%s@tcp:127.0.0.1:1/fake" % ("b" * 32), name=NAME, anonymous=False, **kw):
    option = {"name": name, "storage-server-FURL": furl}
    if issuer is not None:
        option["ristretto-issuer-root-url"] = issuer
    option.update(kw)
    ann = {"nickname": "s", "storage-options": [option]}
    if anonymous:
        ann["anonymous-storage-FURL"] = furl
    return ann


# -------------------------------------------------------------------- a grid


class Storage:
    """
    A storage server made by the plugin from its configuration, with a record of the
    calls which reach it.
    """

    def __init__(self, key_path, issuer, pv=None, directory=None, settings=()):
        self.dir = directory or zk.fresh_path("storage")
        conf = {"ristretto-issuer-root-url": issuer, "ristretto-signing-key-path": key_path}
        if pv is not None:
            conf["pass-value"] = "%d" % pv
        conf.update(settings)
        self.orig = StorageServer(self.dir, b"n" * 20, clock=R)
        out = []
        PLUGIN.get_storage_server(conf, lambda: self.orig).addBoth(out.append)
        if hasattr(out[0], "raiseException"):
            out[0].raiseException()
        self.announcement = out[0].announcement
        self.server = out[0].storage_server
        self.calls = []  # [method, args, "ok" or "fail", result]
        for name in dir(self.server):
            if name.startswith("remote_"):
                setattr(self.server, name, self.recorded(name[7:], getattr(self.server, name)))

    def recorded(self, name, f):
        def g(*args, **kw):
            names = f.__code__.co_varnames[1 : f.__code__.co_argcount] if kw else ()
            args = list(args) + [kw[n] for n in names if n in kw]
            entry = [name, args, None, None]
            self.calls.append(entry)
            try:
                r = f(*args)
            except Exception as e:
                entry[2:] = ["fail", e]
                raise
            entry[2:] = ["ok", r]
            return r

        g.__name__ = "remote_" + name
        return g

    def shares(self):
        """{(storage index, number): share file} of the complete shares"""
        out = {}
        for d, dirs, names in os.walk(self.orig.sharedir):
            if "incoming" in d.split(os.sep):
                continue
            for n in names:
                if n.isdigit():
                    out[os.path.basename(d), int(n)] = get_share_file(os.path.join(d, n))
        return out

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Loop:
    """An HTTP connection of a node to the web server of a node."""

    def __init__(self, site, factory):
        site.timeOut = None
        peer = IPv4Address("TCP", "127.0.0.1", 1)
        self.ends = []
        for f in (site, factory):
            proto = f.buildProtocol(peer)
            t = Transport()
            t.protocol = proto
            self.ends.append((proto, t))
        for proto, t in self.ends:
            proto.makeConnection(t)
        self.open = True

    def move(self):
        """:return: whether anything happened"""
        if not self.open:
            return False
        moved = False
        for i in (1, 0):
            t = self.ends[i][1]
            data = t.value()
            if data:
                t.clear()
                moved = True
                self.ends[1 - i][0].dataReceived(data)
        if not moved:
            for i in (0, 1):
                if self.ends[i][1].disconnecting or self.ends[i][1].disconnected:
                    self.drop(error.ConnectionDone())
                    return True
        return moved

    def drop(self, why=None):
        self.open = False
        for proto, _ in self.ends:
            proto.connectionLost(Failure(why or error.ConnectionLost()))


class Grid:
    """
    Nodes and storage servers with their connections.

    :ivar issuer: Called with each connection to the issuer (see ``mc.http``).
    """

    def __init__(self, storages, issuer=None):
        self.storages = storages
        self.issuer = issuer
        self.nodes = {}  # port -> node
        self.wires = {}  # (node, server) -> wire
        self.loops = []
        self.taken = len(R.attempts)
        self.hook = lambda where: None  # before each delivery
        self.refused = 0
        self.delivered = 0

    def add(self, node):
        self.nodes[node.port] = node

    def remove(self, node):
        del self.nodes[node.port]
        for n, i in list(self.wires):
            if n is node:
                self.lose(n, i)

    def connect(self, node, i):
        w = wire.Wire()
        rref = w.reference(self.storages[i].server)
        s = node.servers()[server_id(i)]
        rref.version = self.storages[i].orig.get_version()
        s._got_versioned_service(rref, None)
        self.wires[node, i] = w
        return s

    def lose(self, node, i):
        w = self.wires.pop((node, i))
        w.lose()

    def step(self):
        """Deliver something.  :return: whether there was anything."""
        turn()
        busy = False
        # (one which is refused may be tried again at once, and for ever)
        for _ in range(len(R.attempts) - self.taken):
            host, port, factory = R.attempts[self.taken]
            self.taken += 1
            if port == 1:
                # to storage servers: connections are made by ``connect``
                continue
            busy = True
            if port in self.nodes:
                self.loops.append(Loop(self.nodes[port].client.getServiceNamed("webish").site, factory))
            elif port == 8080 and self.issuer is not None:
                self.issuer(http.Exchange(R, host, port, factory))
            else:
                self.refused += 1
                http.Exchange(R, host, port, factory).refuse()
            turn()
        for loop in list(self.loops):
            if loop.open:
                busy = loop.move() or busy
                turn()
            else:
                self.loops.remove(loop)
        for (node, i), w in sorted(self.wires.items(), key=lambda kv: (kv[0][0].port, kv[0][1])):
            for pipe in (w.up, w.down):
                if w.alive and pipe.pending():
                    busy = True
                    self.hook((node, i, pipe is w.up))
                    if w.alive:
                        self.delivered += 1
                        w.deliver(pipe)
                        turn()
        return busy

    def run(self, until=lambda: False, idle=20):
        """
        Go on until nothing happens, or nothing but vain attempts of nodes to use
        themselves.
        """
        quiet = 0
        for _ in range(50000):
            if until():
                return True
            before = self.delivered
            if not self.step():
                return until()
            quiet = quiet + 1 if self.delivered == before else 0
            if quiet > idle:
                return until()
        raise AssertionError("there is no end to it")
