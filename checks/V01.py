"""
V01: the storage server reports true share sizes and lease expirations.
"""

import itertools
import os
import struct

from allmydata.storage.common import storage_index_to_dir
from allmydata.storage.lease import LeaseInfo
from allmydata.storage.mutable_schema import ALL_SCHEMAS as MUTABLE
from allmydata.storage.shares import get_share_file

import S03
from S03 import C1, C2, DAY, R1, R2, T0, WE
from mc import zk
from mc.core import check
from mc.runner import Check, Scenario

MAGIC = {s.version: s.header(b"n" * 20, WE)[:32] for s in MUTABLE}
SIS = [b"storage-index-%02d" % i for i in range(4)]
R3, C3 = b"t" * 32, b"e" * 32


# ------------------------------------------------------------ share files
# An independent writer of the containers described in Tahoe-LAFS'
# allmydata/storage/{immutable,mutable}.py.


def secrets(i):
    return b"%032d" % i, b"%032d" % (i + 1000)


def immutable(path, version, size, leases, slack):
    with open(path, "wb") as f:
        f.write(struct.pack(">LLL", version, min(2**32 - 1, size), len(leases)))
        if size:
            f.seek(12 + size - 1)
            f.write(b"d")
        for i, expiry in enumerate(leases):
            f.write(struct.pack(">L32s32sL", 1, *secrets(i), expiry))


def mutable(path, version, size, leases, slack):
    def lease(i, expiry):
        return struct.pack(">LL32s32s20s", 1, expiry, *secrets(i), b"n" * 20)

    inline = [lease(i, e) for i, e in enumerate(leases[:4])]
    if slack and len(inline) == 2:
        inline.insert(1, b"\0" * 92)  # of a lease which was cancelled
    inline += [b"\0" * 92] * (4 - len(inline))
    extra = [lease(i + 4, e) for i, e in enumerate(leases[4:])]
    if slack and not extra:
        extra = [b"\0" * 92]
    # the container never shrinks
    end = 468 + size + slack
    with open(path, "wb") as f:
        f.write(MAGIC[version] + b"n" * 20 + WE + struct.pack(">QQ", size, end))
        f.write(b"".join(inline))
        if size:
            f.seek(468 + size - 1)
            f.write(b"d")
        f.seek(end)
        f.write(struct.pack(">L", len(extra)) + b"".join(extra))


WRITERS = dict(immutable=immutable, mutable=mutable)


def bucket(world, si, make=True):
    d = os.path.join(world.orig.sharedir, storage_index_to_dir(si))
    if make:
        os.makedirs(d, exist_ok=True)
    return d


def tree(root):
    """
    Everything below a directory: names, contents (of holes: only their size).
    """
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs:
            out[os.path.join(d, n)] = None
        for n in files:
            p = os.path.join(d, n)
            st = os.stat(p)
            with open(p, "rb") as f:
                head = f.read(2000)
                f.seek(max(0, st.st_size - 1000))
                out[p] = (st.st_size, st.st_mtime_ns, head, f.read())
    return out


def ask(f, *args):
    try:
        return f(*args), None
    except Exception as e:
        return None, e


def shape(stats):
    """
    {share: (size, expiration)}, in which numbers are really numbers.
    """
    out = {}
    for n, s in stats.items():
        check(
            type(n) is int and type(s.size) is int and type(s.lease_expiration) is int,
            "not a number is reported",
            share=repr(n),
            stat=repr(s),
        )
        out[n] = (s.size, s.lease_expiration)
    return out


def expect(world, want, queries, selections, where, malformed=False):
    """
    :param want: {storage index: {share: (size, expiration)}}
    """
    before = tree(world.orig.storedir)
    for q in queries:
        got, e = ask(world.server.remote_stat_shares, list(q))
        if e is None or not (malformed and any(si in malformed for si in q)):
            check(e is None, "stat_shares fails", query=q, error=repr(e), where=where)
            check(type(got) is list and len(got) == len(q), "the wrong number of answers", query=q, where=where)
            got = [shape(g) for g in got]
            check(
                got == [want.get(si, {}) for si in q],
                "stat_shares reports something else",
                query=q,
                got=got,
                want=[want.get(si, {}) for si in q],
                where=where,
            )
    for si in {si for q in queries for si in q}:
        for nums in selections:
            got, e = ask(world.server.remote_share_sizes, si, nums)
            if e is None or not (malformed and si in malformed):
                check(e is None, "share_sizes fails", nums=nums, error=repr(e), where=where)
                w = {n: s for n, (s, _) in want.get(si, {}).items() if nums is None or n in nums}
                check(got == w, "share_sizes reports something else", nums=nums, got=got, want=w, where=where)
    check(tree(world.orig.storedir) == before, "asking changes what is stored", where=where)


EXPIRIES = [T0 + DAY, T0 - DAY, T0 + 2 * DAY, 2**31, 2**32 - 1, 1]


def single(b):
    """
    One share of every shape.
    """

    def scenario(ch):
        kind = ch.pick(list(WRITERS), "kind")
        version = ch.pick([1, 2], "container version")
        size = ch.pick(b["sizes"], "size")
        count = ch.choose(b["leases"] + 1, "leases")
        # the position of the latest of the leases, and which it is
        last = ch.choose(count, "latest lease") if count > 1 else 0
        slack = ch.pick(b["slack"], "slack") if kind == "mutable" else 0
        number = ch.pick(b["numbers"], "share")
        if kind == "immutable" and size < 20 and count == 0:
            # Such a file cannot be told from one which was cut off, and no share is
            # without a lease.
            return "skipped"
        expiries = []
        for i in range(count):
            expiries.append(EXPIRIES[1] + i)
        if count:
            expiries[last] = ch.pick(EXPIRIES[: b["expiries"]], "expiry")
        world = S03.World()
        try:
            path = os.path.join(bucket(world, SIS[0]), str(number))
            WRITERS[kind](path, version, size, expiries, slack)
            want = {SIS[0]: {number: (size, max(expiries, default=0))}}
            # (is the file what it is said to be?)
            sf = get_share_file(path)
            assert sf.get_length() == size and [l.get_expiration_time() for l in sf.get_leases()] == expiries
            expect(
                world,
                want,
                [[SIS[0]], [SIS[1], SIS[0]], [SIS[0], SIS[0]]],
                [None, {number}, {number + 1}, set(), {0, 1, 2, 255}],
                (kind, version, size, expiries, slack),
            )
            return "%s v%d, %d leases" % (kind, version, count)
        finally:
            world.close()

    return scenario


def several(b):
    """
    Several shares at several storage indexes, and other files next to them.
    """

    def scenario(ch):
        world = S03.World()
        try:
            want = {}
            shapes = b["shapes"]
            for si in SIS[: b["indexes"]]:
                kind = ch.pick(["mutable", "immutable", "nothing", "an empty directory"], "kind")
                if kind == "nothing":
                    continue
                d = bucket(world, si)
                if kind not in WRITERS:
                    continue
                numbers = ch.pick(b["numbers"], "shares")
                first = ch.choose(len(shapes), "shapes")
                for i, n in enumerate(numbers):
                    version, size, leases, slack = shapes[(first + i) % len(shapes)]
                    WRITERS[kind](os.path.join(d, str(n)), version, size, leases, slack)
                    want.setdefault(si, {})[n] = (size, max(leases))
                if ch.choose(2, "other files") == 1:
                    for name in ("notes.txt", "0.tmp", "x1", ".hidden", "1.5"):
                        with open(os.path.join(d, name), "w") as f:
                            f.write("x")
            have = SIS[: b["indexes"]]
            queries = [[]] + [list(p) for k in (1, 2) for p in itertools.product(have, repeat=k)] + [have, have[::-1], SIS + have]
            selections = [None] + [set(c) for k in range(3) for c in itertools.combinations((0, 1, 7), k)]
            expect(world, want, queries, selections, want)
            return "%d indexes, %d shares" % (len(want), sum(map(len, want.values())))
        finally:
            world.close()

    return scenario


def damaged(b):
    """
    One of several files is not a share: no number is invented for it, and the
    other storage indexes are not affected.
    """

    def scenario(ch):
        kind = ch.pick(list(WRITERS), "kind")
        version = ch.pick([1, 2], "version")
        which = ch.pick([0, 1], "damaged share")
        others = ch.choose(2, "another share") == 1
        how = ch.pick(["cut", "byte", "swap", "directory"], "damage")
        world = S03.World()
        try:
            d = bucket(world, SIS[0])
            want = {SIS[0]: {}, SIS[1]: {4: (30, T0)}}
            for n in (0, 1):
                if n == which or others:
                    WRITERS[kind](os.path.join(d, str(n)), version, 50, [T0 + n], 0)
                    if n != which:
                        want[SIS[0]][n] = (50, T0 + n)
            WRITERS[kind](os.path.join(bucket(world, SIS[1]), "4"), version, 30, [T0], 0)
            path = os.path.join(d, str(which))
            with open(path, "rb") as f:
                whole = f.read()
            header = 12 if kind == "immutable" else 32
            detail = None
            if how == "cut":
                # (within the header, which is where it can be told)
                detail = ch.choose(12 if kind == "immutable" else 100, "length")
                data = whole[:detail]
            elif how == "byte":
                detail = ch.choose(4 if kind == "immutable" else 32, "position")
                data = whole[:detail] + bytes([whole[detail] ^ ch.pick([0x80, 4, 0xFF], "bits")]) + whole[detail + 1 :]
            elif how == "swap":
                data = b"\0" * len(whole)
            os.unlink(path)
            if how == "directory":
                os.mkdir(path)
            else:
                with open(path, "wb") as f:
                    f.write(data)
            expect(
                world,
                want,
                [[SIS[0]], [SIS[1]], [SIS[0], SIS[1]], [SIS[1], SIS[0]], [SIS[1], SIS[2], SIS[1]]],
                [None, {0}, {1}, {4}, {0, 1, 4}],
                (kind, version, which, others, how, detail),
                malformed={SIS[0]},
            )
            return "%s: %s" % (kind, how)
        finally:
            world.close()

    return scenario


# -------------------------------------------------------------- histories

LEASES = [(R1, C1), (R2, C2), (R3, C3)]


class Model:
    def __init__(self):
        self.shares = {}  # (si, n) -> [size, {secret: expiry}]
        self.open = {}  # (si, n) -> writer

    def want(self):
        out = {}
        for (si, n), (size, leases) in self.shares.items():
            out.setdefault(si, {})[n] = (size, max(leases.values()))
        return out


def history(b):
    I, M = SIS[0], SIS[1]

    def options(world, m):
        o = [("pass a day",)]
        for n in b["shares"]:
            for off, k in b["writes"]:
                o.append(("write", n, off, k))
            if (M, n) in m.shares:
                for k in b["lengths"]:
                    o.append(("length", n, k))
            if (I, n) not in m.shares and (I, n) not in m.open:
                for size in b["sizes"]:
                    o.append(("allocate", n, size))
            if (I, n) in m.open:
                o += [("close", n), ("abort", n)]
        for si in (I, M):
            present = [k for k in m.shares if k[0] == si]
            if present:
                for i in range(len(LEASES)):
                    o.append(("lease", si, i))
                held = {s for k in present for s in m.shares[k][1]}
                for i in sorted(held):
                    o.append(("cancel", si, i))
        return o

    def files(world, si):
        d = bucket(world, si, make=False)
        return {int(n): os.path.join(d, n) for n in os.listdir(d)}

    def apply(world, m, op):
        now = int(world.clock.seconds())
        end = now + 31 * DAY
        kind = op[0]
        if kind == "pass a day":
            world.clock.advance(DAY)
            # (an upload which nothing happens to is given up)
            m.open.clear()
        elif kind == "write":
            _, n, off, k = op
            new = (M, n) not in m.shares
            world.orig.slot_testv_and_readv_and_writev(
                M, (WE, R1, C1), {n: ([], [(off, b"w" * k)], None)}, [], renew_leases=True
            )
            s = m.shares.setdefault((M, n), [0, {}])
            s[0] = max(s[0], off + k)
            # (Tahoe-LAFS renews the leases of all the shares written to)
            s[1][0] = end
        elif kind == "length":
            _, n, k = op
            world.orig.slot_testv_and_readv_and_writev(
                M, (WE, R1, C1), {n: ([], [], k)}, [], renew_leases=False
            )
            if k == 0:
                del m.shares[(M, n)]
            else:
                m.shares[(M, n)][0] = min(m.shares[(M, n)][0], k)
        elif kind == "allocate":
            _, n, size = op
            _, writers = world.orig.allocate_buckets(I, R1, C1, {n}, size, renew_leases=False)
            m.open[(I, n)] = (writers[n], size, end)
        elif kind == "close":
            w, size, expiry = m.open.pop((I, op[1]))
            if size:
                w.write(size - 1, b"e")
            w.close()
            m.shares[(I, op[1])] = [size, {0: expiry}]
        elif kind == "abort":
            m.open.pop((I, op[1]))[0].abort()
        elif kind == "lease":
            _, si, i = op
            r, c = LEASES[i]
            world.orig.add_lease(si, r, c)
            for k, s in m.shares.items():
                if k[0] == si:
                    s[1][i] = end
        elif kind == "cancel":
            _, si, i = op
            for n, path in files(world, si).items():
                if i in m.shares[(si, n)][1]:
                    get_share_file(path).cancel_lease(LEASES[i][1])
                    del m.shares[(si, n)][1][i]
                    if not m.shares[(si, n)][1]:
                        del m.shares[(si, n)]

    def scenario(ch):
        world = S03.World()
        m = Model()
        try:
            done = []
            for _ in range(b["depth"]):
                op = ch.pick(options(world, m), "operation")
                apply(world, m, op)
                done.append(op)
            expect(world, m.want(), [[I, M], [M, I, SIS[2]]], [None, {0}, {0, 1}], done)
            return op[0]
        finally:
            for w, _, _ in m.open.values():
                w.abort()
            world.close()

    return scenario


SHAPES = [
    (2, 0, [T0], 0),
    (2, 1, [T0 + 5, T0 - DAY], 3),
    (1, 100, [T0 - DAY, T0 + DAY, T0 + 7, T0 + 9, T0 + 2 * DAY], 0),
    (1, 12, [1], 92),
]

CHECK = Check(
    "V01",
    "exploration",
    "every share shape in bounds, written to disk by an independent writer of Tahoe-LAFS' container formats (kind, version, "
    "size at boundaries including beyond 4 GiB, leases in and beyond the header, the latest at each position, containers with "
    "slack), every combination of shares at several storage indexes, every damage of the enumerated kinds, and every history "
    "of Tahoe-LAFS storage operations to a depth; the answers of the real server to queries in every order compared with what "
    "was written, and the stored files compared before and after",
    [
        "a file with less than 32 bytes may be refused (a share is never without a lease)",
        "if one of the shares at a storage index is damaged then queries which include that index may fail as a whole",
    ],
    [
        Scenario(
            "single",
            single,
            dict(
                sizes=[0, 1, 19, 20, 72, 92, 1000, 2**32 - 1, 2**32, 2**32 + 468],
                leases=6,
                slack=[0, 1, 500],
                numbers=[0, 255],
                expiries=4,
            ),
            dict(
                sizes=[0, 1, 4, 8, 11, 12, 13, 19, 20, 31, 32, 71, 72, 73, 91, 92, 93, 143, 144, 368, 468, 1000, 65536, 2**31, 2**32 - 1, 2**32, 2**32 + 468, 2**36],
                leases=9,
                slack=[0, 1, 4, 92, 96, 500],
                numbers=[0, 9, 10, 255],
                expiries=6,
            ),
        ),
        Scenario(
            "several",
            several,
            dict(indexes=2, shapes=SHAPES, numbers=[(0,), (7, 0), (1, 0, 7)]),
            dict(indexes=3, shapes=SHAPES, numbers=[(0,), (7, 0), (1, 0, 7)]),
        ),
        Scenario("damaged", damaged, {}),
        Scenario(
            "history",
            history,
            dict(depth=4, shares=[0], writes=[(0, 3), (5, 4)], lengths=[0, 2], sizes=[0, 25]),
            dict(depth=5, shares=[0, 1], writes=[(0, 3), (5, 4)], lengths=[0, 2, 6], sizes=[0, 25]),
        ),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
