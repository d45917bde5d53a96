"""In-memory file system for the reporting code (symbolic process only)."""
import csv as _csv
import io
import os as _os
import posixpath
import sys
import types


class FS:
    files = {}
    dirs = set()

    @classmethod
    def reset(cls):
        cls.files, cls.dirs = {}, {"/"}


def _n(p):
    return posixpath.normpath(posixpath.join("/cwd", _os.fspath(p)))


class _File(io.StringIO):
    def __init__(self, path, mode):
        self.path = path
        self.mode = mode
        old = FS.files.get(path)
        base = mode.replace("b", "").replace("t", "").replace("+", "")
        if base == "r":
            if old is None:
                raise FileNotFoundError(2, "No such file or directory", path)
        elif base == "x":
            if old is not None:
                raise FileExistsError(17, "File exists", path)
            old = ""
        elif base == "w":
            old = ""
        elif base == "a":
            old = old or ""
        else:
            raise ValueError("invalid mode: %r" % mode)
        d = posixpath.dirname(path)
        if base != "r" and not _isdir(d):
            raise FileNotFoundError(2, "No such file or directory", path)
        io.StringIO.__init__(self, old, newline="")
        self.base = base
        if base == "a":
            self.seek(0, 2)
        if base != "r":
            FS.files[path] = old

    def write(self, s):
        if self.base == "r" and "+" not in self.mode:
            raise io.UnsupportedOperation("not writable")
        if self.base == "a":
            self.seek(0, 2)
        r = io.StringIO.write(self, s)
        FS.files[self.path] = self.getvalue()
        return r

    def close(self):
        io.StringIO.close(self)


def sopen(path, mode="r", *a, **k):
    return _File(_n(path), mode)


def _isdir(p):
    p = _n(p)
    return p in FS.dirs or p in ("/", "/cwd")


def _isfile(p):
    return _n(p) in FS.files


def _exists(p):
    return _isdir(p) or _isfile(p)


def _mk(p):
    while p not in ("/", ""):
        FS.dirs.add(p)
        p = posixpath.dirname(p)


def _makedirs(p, mode=0o777, exist_ok=False):
    if _exists(p) and not (exist_ok and _isdir(p)):
        raise FileExistsError(17, "File exists", p)
    _mk(_n(p))


def _mkdir(p, mode=0o777):
    if _exists(p):
        raise FileExistsError(17, "File exists", p)
    if not _isdir(posixpath.dirname(_n(p))):
        raise FileNotFoundError(2, "No such file or directory", p)
    FS.dirs.add(_n(p))


def _getsize(p):
    if not _isfile(p):
        raise FileNotFoundError(2, "No such file or directory", p)
    return len(FS.files[_n(p)])


def _listdir(p="."):
    p = _n(p)
    return sorted({f[len(p) + 1:].split("/")[0] for f in list(FS.files) + list(FS.dirs) if f.startswith(p + "/")})


def _remove(p):
    del FS.files[_n(p)]


class _Path(type(posixpath.join) if False else object):
    """Small pathlib.Path replacement."""

    def __init__(self, *parts):
        self.p = posixpath.join(*[_os.fspath(x) for x in parts]) if parts else "."

    def __truediv__(self, o):
        return _Path(self.p, o)

    def __rtruediv__(self, o):
        return _Path(o, self.p)

    def __fspath__(self):
        return self.p

    def __str__(self):
        return self.p

    def exists(self):
        return _exists(self.p)

    def is_file(self):
        return _isfile(self.p)

    def is_dir(self):
        return _isdir(self.p)

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        if exist_ok and _isdir(self.p):
            return
        (_makedirs if parents else _mkdir)(self.p)

    def open(self, mode="r", *a, **k):
        return sopen(self.p, mode)

    def write_text(self, s, *a, **k):
        with sopen(self.p, "w") as f:
            f.write(s)

    def read_text(self, *a, **k):
        with sopen(self.p) as f:
            return f.read()

    def stat(self):
        return types.SimpleNamespace(st_size=_getsize(self.p))

    @property
    def parent(self):
        return _Path(posixpath.dirname(self.p))

    @property
    def name(self):
        return posixpath.basename(self.p)

    def joinpath(self, *a):
        return _Path(self.p, *a)


def stubs():
    from symx.loader import _Proxy
    path = _Proxy("posixpath", posixpath, exists=_exists, isfile=_isfile, isdir=_isdir, getsize=_getsize,
                  abspath=_n, lexists=_exists)
    os_ = _Proxy("os", _os, path=path, makedirs=_makedirs, mkdir=_mkdir, listdir=_listdir, remove=_remove, unlink=_remove,
                 stat=lambda p: types.SimpleNamespace(st_size=_getsize(p)))
    import pathlib
    return {"os": os_, "pathlib": _Proxy("pathlib", pathlib, Path=_Path), "io": _Proxy("io", io, open=sopen)}
