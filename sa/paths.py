"""Paths with known text, and a model of the directories they name (`it.fs`)."""
from __future__ import annotations
import posixpath
from pathlib import PurePosixPath as P

PURE_ATTRS = {"parent", "name", "stem", "suffix", "anchor", "root", "drive"}
PURE_METHODS = {"joinpath", "with_suffix", "with_name", "with_stem", "is_absolute", "as_posix", "relative_to", "is_relative_to", "match"}
CLASSES = {"pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath", "pathlib.PurePosixPath"}


class FS:
    """files that exist and the directories they imply; everything else does not exist"""

    def __init__(self, cwd, files):
        self.cwd, self.files = cwd, set(files)
        self.dirs = {"/"}
        for f in list(files) + [cwd + "/x"]:
            d = posixpath.dirname(f)
            while d not in self.dirs:
                self.dirs.add(d)
                d = posixpath.dirname(d)

    def abs(self, p):
        return posixpath.normpath(posixpath.join(self.cwd, str(p)))

    def is_file(self, p):
        return self.abs(p) in self.files

    def is_dir(self, p):
        return self.abs(p) in self.dirs

    def exists(self, p):
        return self.is_file(p) or self.is_dir(p)

    def listing(self, p):
        d = self.abs(p).rstrip("/") + "/"
        return sorted({x[len(d):].split("/")[0] for x in self.files | self.dirs if x.startswith(d) and x != d})


def const(v):
    return frozenset([("c", type(v).__name__, v)])


def text(av):
    """the single known string or path of a value, else None"""
    t = next(iter(av)) if len(av) == 1 else None
    return t[2] if t is not None and t[0] == "c" and isinstance(t[2], (str, P)) else None


def attr(it, p, name, st, node):
    if name in PURE_ATTRS:
        return const(getattr(p, name))
    if name in ("parents", "parts", "suffixes"):
        return it.mk_tuple(st, [const(x) for x in getattr(p, name)])
    return None


def _seq(it, st, node, xs, tag):
    from .absint import Obj
    return it.alloc(st, Obj("list", segs=tuple(("1", x) for x in xs)), node, tag)


def method(it, p, name, fa, kw, st, node):
    vals = [text(a) for a in fa]
    if name in PURE_METHODS and not kw and all(v is not None for v in vals):
        try:
            return const(getattr(p, name)(*vals))
        except ValueError:
            return None
    if name in ("__str__", "__fspath__"):
        return const(str(p))
    fs = it.fs
    if fs is None:
        return None
    if name in ("is_file", "is_dir", "exists"):
        return const(getattr(fs, name)(p))
    if name == "absolute":
        return const(P(posixpath.join(fs.cwd, str(p))))
    if name == "resolve":
        return const(P(fs.abs(p)))
    if name in ("rglob", "glob") and len(vals) == 1 and isinstance(vals[0], str) and "/" not in vals[0]:
        import fnmatch
        base = fs.abs(p).rstrip("/")
        rel = [x[len(base) + 1:] for x in sorted(fs.files | fs.dirs) if x.startswith(base + "/")]
        return _seq(it, st, node, [const(p / x) for x in rel if (name == "rglob" or "/" not in x) and fnmatch.fnmatchcase(x.split("/")[-1], vals[0])], "glob")
    if name == "iterdir":
        return _seq(it, st, node, [const(p / x) for x in fs.listing(p)], "iterdir")
    return None


def ext(it, name, fa, kw, st, node):
    vals = [text(a) for a in fa]
    if any(v is None for v in vals):
        return None
    fs = it.fs
    if name in CLASSES and not kw:
        return const(P(*vals))
    if name in ("os.fspath", "builtins.str") and len(vals) == 1 and isinstance(vals[0], P):
        return const(str(vals[0]))
    if fs is None:
        return None
    if name in ("pathlib.Path.cwd", "os.getcwd") and not vals:
        return const(P(fs.cwd) if name.startswith("pathlib") else fs.cwd)
    if len(vals) != 1:
        return None
    p = str(vals[0])
    if name in ("os.path.abspath", "os.path.realpath"):
        return const(fs.abs(p))
    if name in ("os.path.isfile", "os.path.isdir", "os.path.exists", "os.path.lexists"):
        return const({"isfile": fs.is_file, "isdir": fs.is_dir}.get(name.split(".")[-1], fs.exists)(p))
    if name == "os.path.relpath":
        return const(posixpath.relpath(fs.abs(p), fs.cwd))
    if name == "os.path.isabs":
        return const(posixpath.isabs(p))
    if name == "os.walk":
        out = []
        todo = [p]
        while todo:
            d = todo.pop(0)
            ds = [x for x in fs.listing(d) if fs.is_dir(posixpath.join(d, x))]
            out.append((d, ds, [x for x in fs.listing(d) if x not in ds]))
            todo += [posixpath.join(d, x) for x in ds]
        return _seq(it, st, node, [it.mk_tuple(st, [const(d), _seq(it, st, node, [const(x) for x in ds], ("wd", d)), _seq(it, st, node, [const(x) for x in fl], ("wf", d))]) for d, ds, fl in out], "walk")
    if name == "os.listdir":
        return _seq(it, st, node, [const(x) for x in fs.listing(p)], "listdir")
    return None
