"""
File operations with fault points: every operation of the process below a scratch
directory that changes something is reported to a hook, which may let it fail or
end the process there.
"""

import builtins
import io
import os
import sys

from .zk import Crash

_MUTATORS = {
    "rename": 2,
    "replace": 2,
    "symlink": 2,
    "link": 2,
    "remove": 1,
    "unlink": 1,
    "mkdir": 1,
    "rmdir": 1,
    "truncate": 1,
    "chmod": 1,
}

# Modules with their own references to such functions.
_IMPORTED = {
    "twisted.python.lockfile": {"symlink": "symlink", "rmlink": "remove", "rename": "rename"},
}


class _File:
    """
    A file opened for writing.  What was written reaches the real file when it is
    flushed or closed.
    """

    def __init__(self, faults, real, path):
        self.faults = faults
        self.real = real
        self.path = path
        self.buffer = []

    def write(self, data):
        self.faults.alive()
        self.buffer.append(data)
        return len(data)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def flush(self):
        if not self.buffer:
            return
        data = self.buffer[0][:0].join(self.buffer)
        self.buffer = []

        def partly(n):
            self.real.write(data[: len(data) * n // 2])
            self.real.flush()

        self.faults.point("write", self.path, partly)
        self.real.write(data)
        self.real.flush()

    def close(self):
        if not self.real.closed:
            try:
                if self.faults.dead:
                    raise Crash()
                self.flush()
            finally:
                self.real.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, name):
        return getattr(self.real, name)


class FileFaults:
    """
    :ivar hook: ``hook(kind, path, partly)``: called before every change.  May
        raise ``Crash`` or an ``OSError``.  ``partly(n)``, if not ``None``, makes n
        halves of the change.
    """

    def __init__(self, root, hook):
        self.root = root
        self.hook = hook
        self.dead = False
        self.saved = []

    def alive(self):
        if self.dead:
            raise Crash()

    def mine(self, path):
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        return isinstance(path, str) and path.startswith(self.root)

    def point(self, kind, path, partly=None):
        self.alive()
        try:
            self.hook(kind, os.path.basename(os.fsdecode(path)), partly)
        except Crash:
            self.dead = True
            raise

    def _patch(self, module, name, value):
        self.saved.append((module, name, getattr(module, name)))
        setattr(module, name, value)

    def __enter__(self):
        def wrap(name, real, n):
            def f(*a, **kw):
                if any(self.mine(p) for p in a[:n]):
                    self.point(name, a[n - 1])
                return real(*a, **kw)

            return f

        for name, n in _MUTATORS.items():
            real = getattr(os, name)
            w = wrap(name, real, n)
            self._patch(os, name, w)
            for module, names in _IMPORTED.items():
                module = sys.modules.get(module)
                if module is None:
                    continue
                for local, what in names.items():
                    if what == name:
                        self._patch(module, local, w)
        real_open = builtins.open

        def open(file, mode="r", *a, **kw):
            if self.mine(file) and any(c in mode for c in "wax+"):
                existed = os.path.exists(file)
                self.point("create" if not existed else "overwrite", file)
                return _File(self, real_open(file, mode, *a, **kw), file)
            return real_open(file, mode, *a, **kw)

        self._patch(builtins, "open", open)
        self._patch(io, "open", open)
        real_os_open = os.open

        def os_open(path, flags, *a, **kw):
            if self.mine(path) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                self.point("create", path)
            return real_os_open(path, flags, *a, **kw)

        self._patch(os, "open", os_open)
        return self

    def __exit__(self, *a):
        for module, name, value in reversed(self.saved):
            setattr(module, name, value)
        del self.saved[:]


def orphan_lock(path):
    """
    The process that holds this Twisted lock is no more.
    """
    if os.path.islink(path):
        os.unlink(path)
        os.symlink("999999999", path)
