"""
Builders shared by the checks: real stores on scratch SQLite files, connections
with fault points, deterministic tokens, state fingerprints.
"""

import base64
import collections
import datetime as _dt
import enum
import hashlib
import os
import shutil
import sqlite3
import sys
import tempfile
import atexit

def _remember_parses():
    """
    sqlparse is slow and its result depends on the text only.
    """
    import functools

    import sqlparse

    parse = sqlparse.parse
    if not hasattr(parse, "cache_info"):
        sqlparse.parse = functools.lru_cache(maxsize=4096)(parse)
        for name, module in list(sys.modules.items()):
            if name.startswith("_zkapauthorizer") and getattr(module, "parse", None) is parse:
                module.parse = sqlparse.parse


_remember_parses()

SCRATCH = None
_MAIN = os.getpid()


def scratch():
    """A private scratch directory, removed at exit."""
    global SCRATCH
    if SCRATCH is None or SCRATCH[0] != os.getpid():
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        d = tempfile.mkdtemp(prefix="zkapmc-", dir=base)
        SCRATCH = (os.getpid(), d)
        _register(d)
    return SCRATCH[1]


def _register(d):
    pid = os.getpid()

    def clean():
        if os.getpid() == pid:
            shutil.rmtree(d, ignore_errors=True)

    atexit.register(clean)
    if os.getpid() != _MAIN:
        import signal

        def on_term(*_):
            clean()
            os._exit(1)

        signal.signal(signal.SIGTERM, on_term)


def cleanup_scratch():
    """For forked workers that leave with os._exit."""
    if SCRATCH is not None and SCRATCH[0] == os.getpid():
        shutil.rmtree(SCRATCH[1], ignore_errors=True)


_counter = [0]


def fresh_path(stem="db"):
    _counter[0] += 1
    return os.path.join(scratch(), "%s-%d" % (stem, _counter[0]))


NOW = _dt.datetime(2024, 1, 2, 3, 4, 5, tzinfo=_dt.timezone.utc)


class Crash(BaseException):
    """The process dies here."""


# --------------------------------------------------------------- connections


def mutating(sql):
    """Does this statement (possibly) make a durable change?"""
    head = " ".join(
        line for line in sql.splitlines() if not line.strip().startswith("--")
    ).split(None, 3)
    word = head[0].upper() if head else ""
    if word in ("SELECT", "PRAGMA", "BEGIN", ""):
        return False
    up = sql.upper()
    if word == "CREATE" and ("TEMPORARY" in up or "IF NOT EXISTS" in up):
        return False
    return True


class FaultCursor(sqlite3.Cursor):
    def execute(self, sql, *a):
        c = self.connection
        c.point("execute", sql)
        return super().execute(sql, *a)

    def executemany(self, sql, rows):
        c = self.connection
        c.point("executemany", sql)
        return super().executemany(sql, rows)


class FaultConnection(sqlite3.Connection):
    """
    A real SQLite3 connection that reports every statement and every commit to
    ``hook(kind, sql)`` before performing it.  The hook may raise ``Crash`` (the
    process dies: the connection is dead from there on) or a sqlite3 error.
    """

    hook = None
    dead = False
    wrote = False

    def point(self, kind, sql):
        if self.dead:
            raise Crash()
        if kind in ("execute", "executemany"):
            if not mutating(sql):
                return
            self.wrote = True
        elif not self.wrote:
            # nothing durable happens at the end of a read-only transaction
            return
        if self.hook is not None:
            try:
                self.hook(kind, sql)
            except Crash:
                self.dead = True
                raise

    def cursor(self, factory=None):
        return super().cursor(factory or FaultCursor)

    def execute(self, *a):
        cur = self.cursor()
        cur.execute(*a)
        return cur

    def executemany(self, *a):
        cur = self.cursor()
        cur.executemany(*a)
        return cur

    def commit(self):
        if self.in_transaction:
            self.point("commit", "COMMIT")
        elif self.dead:
            raise Crash()
        return super().commit()

    def __exit__(self, et, ev, tb):
        if et is None:
            self.commit()
            if self.hook is not None:
                self.point("committed", "")
            self.wrote = False
        else:
            self.wrote = False
            if not self.dead:
                self.rollback()
            # a dead process performs nothing; the transaction is lost on close
        return False

    def kill(self):
        self.dead = True
        try:
            sqlite3.Connection.rollback(self)
        except sqlite3.Error:
            pass
        sqlite3.Connection.close(self)


def connect(path, isolation_level=None, **kw):
    """A ``sqlite3.connect`` with fault points and without fsync."""
    conn = sqlite3.connect(
        path,
        isolation_level=isolation_level,
        factory=FaultConnection,
        check_same_thread=False,
        **kw
    )
    cur = sqlite3.Connection.cursor(conn)
    cur.execute("PRAGMA synchronous = OFF")
    cur.execute("PRAGMA journal_mode = MEMORY")
    cur.fetchall()
    cur.close()
    return conn


_template = {}


def template_db():
    """
    A database file with the current schema, made by the real code (so each
    scenario need not repeat the schema upgrade).  Made once per process.
    """
    pid = os.getpid()
    if pid not in _template:
        path = fresh_path("template")
        conn = connect(path)
        make_store(conn)
        conn.close()
        _template[pid] = path
    return _template[pid]


def new_db():
    path = fresh_path()
    shutil.copyfile(template_db(), path)
    return path


def open_conn(path):
    from functools import partial

    from _zkapauthorizer.model import open_database

    return open_database(partial(connect, path))


def make_store(conn, replicating=False, pass_value=2**20, now=None):
    from _zkapauthorizer.model import VoucherStore
    from _zkapauthorizer.replicate import with_replication

    return VoucherStore.from_connection(
        pass_value, now or (lambda: NOW), with_replication(conn, replicating)
    )


def remove(path):
    for suffix in ("", "-journal", "-wal", "-shm"):
        try:
            os.unlink(path + suffix)
        except FileNotFoundError:
            pass


def dump(path_or_conn, temp=False, skip=()):
    """
    Canonical logical contents of a database: {table: sorted rows}.
    """
    if isinstance(path_or_conn, str):
        conn = sqlite3.connect(path_or_conn)
        close = True
    else:
        conn = path_or_conn
        close = False
    try:
        cur = sqlite3.Connection.cursor(conn)
        out = {}
        for master in ("sqlite_master",) + (("sqlite_temp_master",) if temp else ()):
            cur.execute("SELECT name FROM %s WHERE type='table'" % master)
            for (name,) in cur.fetchall():
                if name in skip:
                    continue
                cur.execute('SELECT * FROM "%s"' % name)
                out[name] = sorted(cur.fetchall(), key=repr)
        cur.close()
        return out
    finally:
        if close:
            conn.close()


def schema_of(path_or_conn):
    if isinstance(path_or_conn, str):
        conn = sqlite3.connect(path_or_conn)
        close = True
    else:
        conn, close = path_or_conn, False
    try:
        cur = sqlite3.Connection.cursor(conn)
        cur.execute("SELECT name FROM sqlite_master WHERE type='table' ORDER BY name")
        out = {}
        for (name,) in cur.fetchall():
            cur.execute('PRAGMA table_info("%s")' % name)
            out[name] = cur.fetchall()
        cur.close()
        return out
    finally:
        if close:
            conn.close()


# --------------------------------------------------------------- tokens


def _b64(tag, n):
    h = b""
    i = 0
    while len(h) < n:
        h += hashlib.sha256(("%s/%d" % (tag, i)).encode()).digest()
        i += 1
    return base64.b64encode(h[:n])


def voucher_number(i):
    raw = hashlib.sha256(("voucher-%s" % i).encode()).digest()
    return base64.urlsafe_b64encode(raw)


def random_token(tag):
    from _zkapauthorizer.model import RandomToken

    return RandomToken(_b64("random/%s" % tag, 96))


def unblinded_token(tag):
    from _zkapauthorizer.model import UnblindedToken

    return UnblindedToken(_b64("unblinded/%s" % tag, 96))


def pass_for(token, message):
    """A pass bound to (token, message), in the manner of a MAC."""
    from _zkapauthorizer.model import Pass

    pre = _b64("preimage/%s" % token.decode("ascii"), 64)
    sig = _b64("sig/%s/%s" % (token.decode("ascii"), message.hex()), 64)
    return Pass(pre, sig)


# --------------------------------------------------------------- fingerprints

_PRIM = (int, float, str, bytes, bool, type(None), _dt.datetime, _dt.timedelta)


def fingerprint(obj, depth=6, seen=None, skip=()):
    """
    Structural fingerprint of an object graph, for state merging only.  Walks
    containers and instances of the code under test; foreign objects count by type
    except Deferreds and LoopingCalls.  It never decides a verdict.
    """
    if isinstance(obj, enum.Enum):
        return str(obj)
    if isinstance(obj, _PRIM):
        return repr(obj)
    if depth <= 0:
        return "<%s>" % type(obj).__name__
    seen = seen or frozenset()
    if id(obj) in seen:
        return "<cycle>"
    seen = seen | {id(obj)}
    rec = lambda o: fingerprint(o, depth - 1, seen, skip)
    if isinstance(obj, dict):
        return ("d", tuple(sorted((rec(k), rec(v)) for k, v in obj.items())))
    if isinstance(obj, (set, frozenset)):
        return ("s", tuple(sorted(map(repr, map(rec, obj)))))
    if isinstance(obj, (list, tuple, collections.deque)):
        return ("l", tuple(rec(o) for o in obj))
    mod = type(obj).__module__ or ""
    name = type(obj).__name__
    if name == "Deferred":
        return ("Deferred", bool(obj.called), bool(obj.paused))
    if name == "LoopingCall":
        return ("LoopingCall", bool(obj.running))
    if name == "DelayedCall":
        return ("DelayedCall", bool(obj.called), bool(obj.cancelled), obj.time)
    if name == "DeferredQueue":
        return ("DeferredQueue", rec(list(obj.pending)), len(obj.waiting))
    if mod.startswith("_zkapauthorizer") and not any(
        isinstance(obj, s) for s in skip
    ):
        state = {}
        for klass in type(obj).__mro__:
            slots = klass.__dict__.get("__slots__", ())
            if isinstance(slots, str):
                slots = (slots,)
            for s in slots:
                if s != "__weakref__" and hasattr(obj, s):
                    state[s] = getattr(obj, s)
        state.update(getattr(obj, "__dict__", {}))
        return (name, tuple(sorted((k, rec(v)) for k, v in state.items())))
    return "<%s>" % name


# --------------------------------------------------------------- deferreds


def result_of(d):
    """
    ('pending',) | ('ok', value) | ('fail', exception) of a Deferred.
    """
    out = []
    d.addCallbacks(lambda v: out.append(("ok", v)), lambda f: out.append(("fail", f.value)))
    return out[0] if out else ("pending",)


def run(coro):
    from twisted.internet.defer import Deferred

    return result_of(Deferred.fromCoroutine(coro))
