"""
A model of the Tahoe-LAFS grid and of a node's gateway to it.  Operations of a
client wait until the environment decides how they end.
"""

import io
import os

import tahoe_capabilities as tc
from hyperlink import DecodedURL
from twisted.internet.defer import Deferred
from twisted.python.filepath import FilePath

from _zkapauthorizer.tahoe import (
    DirectoryNode,
    FileNode,
    ShareEncoding,
    TahoeAPIError,
    TahoeConfig,
)


def api_error(what):
    return TahoeAPIError("put", DecodedURL.from_text("http://127.0.0.1/uri/%s" % what), 500, "went wrong")


class Grid:
    def __init__(self):
        self.files = {}  # cap string -> bytes
        self.dirs = {}  # read cap string -> {name: cap}
        self.n = 0

    def add_file(self, data):
        # Immutable content has one capability.
        for cap, d in self.files.items():
            if d == data:
                return tc.readable_from_string(cap)
        self.n += 1
        cap = tc.CHKRead.derive(
            readkey=self.n.to_bytes(16, "big"),
            uri_extension_hash=self.n.to_bytes(32, "big"),
            needed=3,
            total=10,
            size=len(data),
        )
        self.files[tc.danger_real_capability_string(cap)] = data
        return cap

    def make_directory(self):
        self.n += 1
        cap = tc.SSKDirectoryWrite(
            cap_object=tc.SSKWrite.derive(self.n.to_bytes(16, "big"), self.n.to_bytes(32, "big"))
        )
        self.dirs[self.key(cap.reader)] = {}
        return cap

    def key(self, cap):
        return tc.danger_real_capability_string(cap)

    def children(self, cap):
        return self.dirs[self.key(getattr(cap, "reader", cap))]

    def contents(self, cap):
        """{name: bytes} of the files in a directory."""
        return {
            name: self.files[self.key(c)]
            for name, c in self.children(cap).items()
            if self.key(c) in self.files
        }

    def link(self, cap, name, child):
        assert tc.is_write(cap), cap
        self.children(cap)[name] = child

    def unlink(self, cap, name):
        assert tc.is_write(cap), cap
        if name not in self.children(cap):
            raise TahoeAPIError(
                "delete", DecodedURL.from_text("http://127.0.0.1/uri/x/%s" % name), 404, "No such child"
            )
        del self.children(cap)[name]

    def list(self, cap):
        out = {}
        for name, c in self.children(cap).items():
            k = self.key(c)
            if k in self.files:
                out[name] = FileNode(len(self.files[k]), c)
            else:
                out[name] = DirectoryNode(c)
        return out


class Op:
    def __init__(self, client, name, arg, apply):
        self.client, self.name, self.arg, self.apply = client, name, arg, apply
        self.d = Deferred(lambda d: self.cancelled())
        client.pending.append(self)

    def __repr__(self):
        return "%s(%s)" % (self.name, self.arg)

    def cancelled(self):
        if self in self.client.pending:
            self.client.pending.remove(self)
            self.client.abandoned.append(self)

    def ok(self):
        self.client.pending.remove(self)
        try:
            r = self.apply()
        except Exception as e:
            self.d.errback(e)
        else:
            self.d.callback(r)

    def fail(self, exc=None):
        self.client.pending.remove(self)
        self.d.errback(exc or api_error(self.name))

    def lost(self, exc=None):
        """The effect happened but the answer says otherwise."""
        self.client.pending.remove(self)
        try:
            self.apply()
        except Exception:
            pass
        self.d.errback(exc or api_error(self.name))


class Client:
    """
    Implements ITahoeClient on a ``Grid``.

    :ivar immediate: complete every operation at once, successfully.
    """

    def __init__(self, grid, directory, immediate=False, encoding=ShareEncoding(3, 10)):
        self.grid = grid
        self.directory = directory
        self.pending = []
        self.abandoned = []
        self.immediate = immediate
        self.encoding = encoding
        self.performed = []

    def get_config(self):
        return TahoeConfig(self.encoding)

    def get_private_path(self, name):
        return FilePath(os.path.join(self.directory, name))

    async def _op(self, name, arg, apply):
        def noted():
            r = apply()
            self.performed.append((name, arg))
            return r

        if self.immediate:
            return noted()
        return await Op(self, name, arg, noted).d

    async def download(self, outpath, cap):
        def apply():
            outpath.setContent(self.grid.files[self.grid.key(cap)])

        return await self._op("download", os.path.basename(outpath.path), apply)

    async def upload(self, get_data):
        with get_data() as f:
            data = f.read()
        return await self._op("upload", len(data), lambda: self.grid.add_file(data))

    async def make_directory(self):
        return await self._op("make_directory", "", self.grid.make_directory)

    async def link(self, cap, name, child):
        return await self._op("link", name, lambda: self.grid.link(cap, name, child))

    async def unlink(self, cap, name):
        return await self._op("unlink", name, lambda: self.grid.unlink(cap, name))

    async def list_directory(self, cap):
        return await self._op("list", "", lambda: self.grid.list(cap))


def replica_provider(contents, name):
    return lambda: io.BytesIO(contents[name])
