"""A model of what a program reaches outside of itself: files, the network, the clock, threads.

Interpreted code meets it through stubs of the library functions concerned.  Files live in the abstract heap, so what is
known of them is joined along with everything else; every access is noted in `log`."""
from __future__ import annotations
import ast
import hashlib
import json
import re
import posixpath
from . import paths
from .absint import Obj, C, NONE, EMPTY, TRUE, FALSE, join_all
from .program import Func

MISSING = frozenset([("s", "<no such file>")])
P = paths.P


def S(x):
    return frozenset([("s", x)])


def const(v):
    return frozenset([C(v)])


def cval(av):
    t = next(iter(av)) if len(av) == 1 else None
    return t[2] if t is not None and t[0] == "c" else None


def body(label):
    """a non-empty text that is only known by a label"""
    return frozenset([("pre", "#", ("s", label))])


def label(t):
    """the label of an unknown text"""
    if t[0] == "pre" and t[1] == "#":
        t = t[2]
    return t[1] if t[0] == "s" else None


class Access:
    def __init__(self, kind, what, node, func, thread, **kw):
        self.kind, self.what, self.node, self.func, self.thread, self.more = kind, what, node, func, thread, kw

    def __repr__(self):
        return f"<{self.kind} {self.what} {self.more}>"


class Disk(paths.FS):
    """names of files, for what only depends on them"""

    def __init__(self, w):
        self.w, self.cwd = w, w.cwd

    @property
    def files(self):
        return set(self.w.files())

    @property
    def dirs(self):
        out = {"/"}
        for f in [*self.files, self.cwd + "/x"]:
            while f != "/":
                f = posixpath.dirname(f)
                out.add(f)
        return out


class World:
    """net(url) -> ("ok"|"status", code, body label) or ("raise", exception class)"""

    def __init__(self, ctx, now=10 ** 9, net=None, raises=None, files=None, dirs=(), data="/data", cwd="/w", isolate=True):
        self.ctx, self.now, self.net, self.cwd = ctx, now, net or (lambda url: ("raise", "requests.exceptions.ConnectionError")), cwd
        self.log, self.trace, self.thread, self.thread_exc, self.known, self.dirs = [], [], 0, {}, {}, set(dirs)
        it = self.it = ctx.interp(unknown_raises=raises)
        it.generic = True
        self.st = it.new_state()
        it.fs = Disk(self)
        it.pkg_dir = "/site"
        self.isolate = isolate      # exceptions that leave a thread do not reach its starter
        self.parse = {}             # label of a text -> what a parser makes of it (None: it cannot be parsed)
        self.fail = lambda kind, what: None   # (kind of access, path) -> exception class to raise
        self.data = data
        self.rest = None            # path -> content of files not mentioned otherwise
        for p, v in (files or {}).items():
            self.put(self.st, p, v)
        self.install()

    # ------------------------------------------------------------------ files
    def key(self, av):
        p = paths.text(av)
        return None if p is None else posixpath.normpath(posixpath.join(self.cwd, str(p)))

    def oid(self, p):
        self.known[p] = self.it.oid(("file", p))
        return self.known[p]

    def get(self, st, p):
        o = st.heap.get(self.oid(p))
        return (self.rest(p) if self.rest else MISSING) if o is None else o.fields["data"]

    def put(self, st, p, av):
        st.heap[self.oid(p)] = Obj("inst", "edl.Content", {"data": av})

    def files(self, st=None):
        st = st or self.st
        return {p: self.get(st, p) for p in self.known if self.get(st, p) != MISSING}

    def restore(self, snapshot):
        for p in self.known:
            self.put(self.st, p, snapshot.get(p, MISSING))

    def changed(self, st, p, av, node, part=None):
        """content of a file changes; `part`: what it is when this is cut short"""
        if part is not None:
            self.trace.append(({**self.files(st), p: part}, node))
        self.put(st, p, av)
        self.trace.append((self.files(st), node))

    def note(self, kind, what, node, fr, **kw):
        self.log.append(Access(kind, what, node, fr.func if fr else None, self.thread, **kw))

    def failing(self, kind, what, st, node, fr):
        e = self.fail(kind, what)
        if e:
            self.it.raise_exc(e, st, node, "injected", fr)
            st.dead = True
        return bool(e)

    def file_obj(self, st, node, p, mode):
        return self.it.alloc(st, Obj("inst", "edl.File", {"path": const(p), "mode": const(mode), "closed": FALSE}), node, ("file", p, mode))

    def open(self, it, av, mode, st, node, fr, opener=None):
        p = self.key(av)
        mode = mode if isinstance(mode, str) else "r"
        self.note("open", p if p is not None else av, node, fr, mode=mode)
        if p is None:
            return S("FILE?")
        if self.failing("open", p, st, node, fr):
            return EMPTY
        old = self.get(st, p)
        if "w" in mode:
            self.changed(st, p, const(""), node)
        elif "x" in mode:
            if MISSING != old:
                it.raise_exc("FileExistsError", st, node, "open", fr)
            if not MISSING <= old:
                st.dead = True
                return EMPTY
            self.changed(st, p, const(""), node)
        elif "a" in mode:
            if MISSING <= old:
                self.changed(st, p, (old - MISSING) | const(""), node)
        elif MISSING <= old:
            it.raise_exc("FileNotFoundError", st, node, "open", fr)
            if old == MISSING:
                st.dead = True
                return EMPTY
        return self.file_obj(st, node, p, mode)

    def read(self, st, p, node, fr):
        self.note("read", p, node, fr)
        if self.failing("read", p, st, node, fr):
            return EMPTY
        return self.get(st, p) - MISSING

    def write(self, st, p, x, node, fr):
        self.note("write", p, node, fr, data=x)
        if self.failing("write", p, st, node, fr):
            return EMPTY
        old = self.get(st, p)
        part = frozenset([("op", "part-of", x)])
        if cval(old) == "":
            self.changed(st, p, x, node, part)
        else:
            self.changed(st, p, frozenset([("op", "concat", old, x)]), node, frozenset([("op", "concat", old, part)]))
        return S("WRITTEN")

    # ------------------------------------------------------------------ parsed data
    def data_of(self, st, x, node, fr, error, kind):
        """what parsing a text gives"""
        out = EMPTY
        for t in x:
            if t[0] == "op" and t[1] == "dumped" and t[2] == kind:
                out |= self.thaw(st, node, t[3], ("thaw",))
            elif label(t) is not None and self.parse.get(label(t)) is not None:
                out |= self.build(st, node, self.parse[label(t)], ("parsed", label(t)))
            elif t[0] == "c" and isinstance(t[2], (str, bytes)) and kind == "json":
                try:
                    out |= self.build(st, node, json.loads(t[2]), ("parsed", t[2]))
                except ValueError:
                    self.it.raise_exc(error, st, node, "parse", fr)
            elif t[0] == "c" and isinstance(t[2], (str, bytes)):
                out |= self.build(st, node, {}, ("parsed", t[2])) if not t[2].strip() else S(("parsed", kind, frozenset([t])))
            elif label(t) is not None and label(t) in self.parse:
                self.it.raise_exc(error, st, node, "parse", fr)
            else:
                out |= S(("parsed", kind, frozenset([t])))
                self.it.raise_exc(error, st, node, "parse", fr)
        if not out:
            st.dead = True
        return out

    def build(self, st, node, x, tag=()):
        if isinstance(x, frozenset):
            return x
        if isinstance(x, dict):
            return self.it.alloc(st, Obj("dict", layers=tuple(("kv", const(k), self.build(st, node, v, (tag, k))) for k, v in x.items())), node, ("build", tag))
        if isinstance(x, list):
            return self.it.alloc(st, Obj("list", segs=tuple(("1", self.build(st, node, v, (tag, i))) for i, v in enumerate(x))), node, ("build", tag))
        return const(x)

    def freeze(self, st, av, depth=8):
        """a value with the objects in it spelled out, so that it stays as it is now"""
        t = next(iter(av)) if len(av) == 1 else None
        o = self.it.obj(st, t[1]) if t is not None and t[0] == "o" and depth else None
        if o is not None and o.kind == "dict":
            ls = self.it.flat_layers(o, st)
            if all(l[0] in ("kv", "*kv") for l in ls):
                return ("dict", tuple((l[0], l[1], self.freeze(st, l[2], depth - 1)) for l in ls))
        if o is not None and o.kind in ("list", "tuple"):
            return ("list", tuple((k, self.freeze(st, v, depth - 1)) for k, v in o.segs))
        return ("av", av)

    def thaw(self, st, node, x, tag):
        if x[0] == "av":
            return x[1]
        if x[0] == "list":
            return self.it.alloc(st, Obj("list", segs=tuple((k, self.thaw(st, node, v, (tag, i))) for i, (k, v) in enumerate(x[1]))), node, (tag, x))
        return self.it.alloc(st, Obj("dict", layers=tuple((k, key, self.thaw(st, node, v, (tag, i))) for i, (k, key, v) in enumerate(x[1]))), node, (tag, x))

    # ------------------------------------------------------------------ network
    def request(self, it, a, k, st, node, fr, url=0):
        u = a[url] if len(a) > url else k.get("url", S("URL?"))
        self.note("request", cval(u) if cval(u) is not None else u, node, fr, timeout=k.get("timeout"), facts=st.facts)
        r = self.net(cval(u))
        if r[0] == "raise":
            it.raise_exc(r[1], st, node, "request", fr)
            st.dead = True
            return EMPTY
        code = r[1]
        text = r[2] if isinstance(r[2], frozenset) else body(r[2])
        return it.alloc(st, Obj("inst", "edl.Response", {"status_code": const(code), "ok": const(code < 400), "text": text, "content": text, "url": u,
                                                         "reason": S("reason"), "headers": S("headers"), "encoding": S("encoding")}), node, ("resp", code, r[2]))

    # ------------------------------------------------------------------ stubs
    def install(self):
        it, s = self.it, self.it.stubs

        def fileobj(i, av, st):
            t = next(iter(av)) if len(av) == 1 else None
            o = i.obj(st, t[1]) if t is not None and t[0] == "o" else None
            return o if o is not None and o.kind == "inst" and o.cls == "edl.File" else None

        def mode_of(a, k, n):
            v = cval(a[n]) if len(a) > n else cval(k["mode"]) if "mode" in k else "r"
            return v

        s["builtins.open"] = lambda i, a, k, st, n, fr: self.open(i, a[0] if a else k.get("file", EMPTY), mode_of(a, k, 1), st, n, fr)
        s["io.open"] = s["codecs.open"] = s["builtins.open"]
        s["os.fdopen"] = lambda i, a, k, st, n, fr: self.open(i, a[0], mode_of(a, k, 1), st, n, fr) if a and self.key(a[0]) else None

        def is_path(a):
            return bool(a) and isinstance(paths.text(a[0]), P)
        s[".open"] = lambda i, a, k, st, n, fr: self.open(i, a[0], mode_of(a, k, 1), st, n, fr) if is_path(a) else None

        def m_read(i, a, k, st, n, fr):
            f = fileobj(i, a[0], st)
            return self.read(st, cval(f.fields["path"]), n, fr) if f is not None else None

        def m_write(i, a, k, st, n, fr):
            f = fileobj(i, a[0], st)
            return self.write(st, cval(f.fields["path"]), a[1] if len(a) > 1 else EMPTY, n, fr) if f is not None else None
        s[".read"] = m_read
        s[".readlines"] = m_read
        s[".write"] = m_write
        s[".writelines"] = m_write
        s[".close"] = lambda i, a, k, st, n, fr: NONE if fileobj(i, a[0], st) is not None else None
        s[".flush"] = s[".close"]
        s[".fileno"] = lambda i, a, k, st, n, fr: S("fd") if fileobj(i, a[0], st) is not None else None

        def read_all(i, a, k, st, n, fr):
            if not is_path(a):
                return None
            self.open(i, a[0], "r", st, n, fr)
            return EMPTY if st.dead else self.read(st, self.key(a[0]), n, fr)

        def write_all(i, a, k, st, n, fr):
            if not is_path(a):
                return None
            self.open(i, a[0], "w", st, n, fr)
            return EMPTY if st.dead else self.write(st, self.key(a[0]), a[1] if len(a) > 1 else k.get("data", EMPTY), n, fr)
        s[".read_text"] = s[".read_bytes"] = read_all
        s[".write_text"] = s[".write_bytes"] = write_all

        def exists(av, st, kinds):
            p = self.key(av)
            if p is None:
                return None
            v = self.get(st, p)
            r = set()
            if v - MISSING:
                r.add("file" in kinds)
            if MISSING <= v:
                r.add("dir" in kinds and (p in self.dirs or any(q.startswith(p.rstrip("/") + "/") for q in self.files(st))))
            return const(r.pop()) if len(r) == 1 else TRUE | FALSE
        for name, kinds in (("exists", ("file", "dir")), ("is_file", ("file",)), ("is_dir", ("dir",))):
            s["." + name] = lambda i, a, k, st, n, fr, kinds=kinds: exists(a[0], st, kinds) if is_path(a) else None
        for name, kinds in (("exists", ("file", "dir")), ("isfile", ("file",)), ("isdir", ("dir",)), ("lexists", ("file", "dir"))):
            s["os.path." + name] = lambda i, a, k, st, n, fr, kinds=kinds: exists(a[0], st, kinds) if a else None

        def move(i, a, k, st, n, fr):
            src, dst = (self.key(a[0]), self.key(a[1])) if len(a) == 2 else (None, None)
            if src is None or dst is None:
                return None
            self.note("write", dst, n, fr, data=self.get(st, src), atomic=True)
            if self.failing("write", dst, st, n, fr):
                return EMPTY
            v = self.get(st, src)
            if MISSING <= v:
                i.raise_exc("FileNotFoundError", st, n, "replace", fr)
                if v == MISSING:
                    st.dead = True
                    return EMPTY
            self.put(st, src, MISSING)
            self.changed(st, dst, v - MISSING, n)
            return NONE
        for n in ("os.replace", "os.rename", "shutil.move"):
            s[n] = move
        s[".replace"] = s[".rename"] = lambda i, a, k, st, n, fr: move(i, a, k, st, n, fr) if is_path(a) else None

        def remove(i, a, k, st, n, fr):
            p = self.key(a[0]) if a else None
            if p is None:
                return None
            self.note("remove", p, n, fr)
            v = self.get(st, p)
            if MISSING <= v and cval(k.get("missing_ok", FALSE)) is not True:
                i.raise_exc("FileNotFoundError", st, n, "remove", fr)
                if v == MISSING:
                    st.dead = True
                    return EMPTY
            self.changed(st, p, MISSING, n)
            return NONE
        s["os.remove"] = s["os.unlink"] = remove
        s[".unlink"] = lambda i, a, k, st, n, fr: remove(i, a, k, st, n, fr) if is_path(a) else None
        s[".mkdir"] = lambda i, a, k, st, n, fr: (EMPTY if self.failing("mkdir", self.key(a[0]), st, n, fr) else NONE) if is_path(a) else None
        s["os.makedirs"] = lambda i, a, k, st, n, fr: EMPTY if a and self.failing("mkdir", self.key(a[0]), st, n, fr) else NONE
        s["os.getpid"] = lambda i, a, k, st, n, fr: const(4242)
        s["threading.get_ident"] = lambda i, a, k, st, n, fr: const(4343)

        def tempf(i, a, k, st, n, fr):
            p = self.key(k["dir"]) if "dir" in k else "/tmp"
            p = f"{p}/tmp{getattr(n, 'lineno', 0)}"
            f = self.open(i, const(p), "w", st, n, fr)
            i.obj(st, next(iter(f))[1]).fields["name"] = const(p)
            return f
        s["tempfile.NamedTemporaryFile"] = tempf

        def mkstemp(i, a, k, st, n, fr):
            p = f"{self.key(k['dir']) if 'dir' in k else '/tmp'}/tmp{getattr(n, 'lineno', 0)}"
            self.put(st, p, const(""))
            return i.mk_tuple(st, [const(p), const(p)])
        s["tempfile.mkstemp"] = mkstemp
        s["os.close"] = lambda i, a, k, st, n, fr: NONE

        # the user's directories
        dirs = {n: const(self.data) for n in ("user_data_dir", "user_cache_dir", "user_config_dir", "user_state_dir")}
        dirs.update({n.replace("_dir", "_path"): const(P(self.data)) for n in list(dirs)})
        s["platformdirs.PlatformDirs"] = s["platformdirs.AppDirs"] = lambda i, a, k, st, n, fr: i.alloc(st, Obj("inst", "edl.Dirs", dict(dirs)), n, "dirs")
        for n in dirs:
            s["platformdirs." + n] = lambda i, a, k, st, nn, fr, n=n: dirs[n]

        # hashes of known texts
        def digest(algo):
            def stub(i, a, k, st, n, fr):
                v = cval(a[0]) if a else b""
                if not isinstance(v, bytes):
                    return None
                h = hashlib.new(algo, v)
                return i.alloc(st, Obj("inst", "edl.Hash", {"hex": const(h.hexdigest()), "raw": const(h.digest())}), n, ("hash", h.hexdigest()))
            return stub
        for algo in ("sha256", "sha1", "md5", "sha512", "blake2b"):
            s["hashlib." + algo] = digest(algo)

        def hexd(i, a, k, st, n, fr):
            t = next(iter(a[0])) if len(a[0]) == 1 else None
            o = i.obj(st, t[1]) if t is not None and t[0] == "o" else None
            return o.fields["hex"] if o is not None and o.cls == "edl.Hash" else None
        s[".hexdigest"] = hexd

        def encode(i, a, k, st, n, fr):
            v = cval(a[0])
            try:
                return const(v.encode(*[cval(x) for x in a[1:]], **{q: cval(x) for q, x in k.items()})) if isinstance(v, str) else None
            except (UnicodeError, LookupError, TypeError):
                return None
        s["str.encode"] = encode

        # data formats
        def load(kind, error):
            def stub(i, a, k, st, n, fr):
                f = fileobj(i, a[0], st) if a else None
                if f is None:
                    return None
                x = self.read(st, cval(f.fields["path"]), n, fr)
                return EMPTY if st.dead else self.data_of(st, x, n, fr, error, kind)
            return stub

        def loads(kind, error):
            return lambda i, a, k, st, n, fr: self.data_of(st, a[0], n, fr, error, kind) if a else None
        for m, e in (("json", "json.decoder.JSONDecodeError"), ("tomli", "tomli.TOMLDecodeError"), ("tomllib", "tomllib.TOMLDecodeError")):
            kind = "json" if m == "json" else "toml"
            s[m + ".load"], s[m + ".loads"] = load(kind, e), loads(kind, e)
        s["tomli.TOMLDecodeError"] = lambda *a: None
        del s["tomli.TOMLDecodeError"]

        def dumped(i, st, x):
            return frozenset([("op", "dumped", "json", self.freeze(st, x))])

        def dump(i, a, k, st, n, fr):
            f = fileobj(i, a[1], st) if len(a) > 1 else None
            return None if f is None else self.write(st, cval(f.fields["path"]), dumped(i, st, a[0]), n, fr)
        s["json.dump"] = dump
        s["json.dumps"] = lambda i, a, k, st, n, fr: dumped(i, st, a[0]) if a else None

        # network
        for n in ("get", "post", "head", "put", "options", "patch", "delete"):
            s["requests." + n] = s["requests.api." + n] = lambda i, a, k, st, nn, fr: self.request(i, a, k, st, nn, fr)
        s["requests.request"] = lambda i, a, k, st, n, fr: self.request(i, a, k, st, n, fr, 1)
        s["requests.Session"] = s["requests.session"] = lambda i, a, k, st, n, fr: i.alloc(st, Obj("inst", "edl.Session", {}), n, "session")
        s["urllib.request.urlopen"] = lambda i, a, k, st, n, fr: self.request(i, a, k, st, n, fr)
        s["urllib.request.urlretrieve"] = s["urllib.request.urlopen"]
        s["socket.create_connection"] = s["http.client.HTTPSConnection"] = s["urllib.request.urlopen"]

        def is_inst(i, a, st, cls):
            t = next(iter(a[0])) if a and len(a[0]) == 1 else None
            o = i.obj(st, t[1]) if t is not None and t[0] == "o" else None
            return o if o is not None and o.kind == "inst" and o.cls == cls else None

        def m_get(i, a, k, st, n, fr):
            return self.request(i, a[1:], k, st, n, fr) if is_inst(i, a, st, "edl.Session") is not None else None
        s[".get"] = m_get
        s[".request"] = lambda i, a, k, st, n, fr: self.request(i, a[2:], k, st, n, fr) if is_inst(i, a, st, "edl.Session") is not None else None

        def m_json(i, a, k, st, n, fr):
            o = is_inst(i, a, st, "edl.Response")
            return None if o is None else self.data_of(st, o.fields["text"], n, fr, "requests.exceptions.JSONDecodeError", "json")
        s[".json"] = m_json

        def m_status(i, a, k, st, n, fr):
            o = is_inst(i, a, st, "edl.Response")
            if o is None:
                return None
            if cval(o.fields["status_code"]) >= 400:
                i.raise_exc("requests.exceptions.HTTPError", st, n, "raise_for_status", fr)
                st.dead = True
            return NONE
        s[".raise_for_status"] = m_status

        # records of the package that are kept as JSON
        def from_dict(i, a, k, st, n, fr):
            t = next(iter(a[0])) if a and len(a[0]) == 1 else None
            if t is None or t[0] != "cls" or t[1] not in i.p.classes or len(a) < 2:
                return None
            kw = {}
            for x in a[1]:
                o = i.obj(st, x[1]) if x[0] == "o" else None
                if o is None or o.kind != "dict":
                    i.raise_exc("AttributeError", st, n, "from_dict of what is not a dictionary", fr)
                    if len(a[1]) == 1:
                        st.dead = True
                        return EMPTY
                    continue
                for l in i.flat_layers(o, st):
                    if l[0] in ("kv", "*kv") and isinstance(cval(l[1]), str):
                        kw[cval(l[1])] = l[2]
            c = i.p.classes[t[1]]
            names = {b.target.id for b in ast.walk(c.node) if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)}
            return i.instantiate(c, [], {x: v for x, v in kw.items() if x in names}, st, n, fr)

        def to_dict(i, a, k, st, n, fr):
            t = next(iter(a[0])) if a and len(a[0]) == 1 else None
            o = i.obj(st, t[1]) if t is not None and t[0] == "o" else None
            if o is None or o.kind != "inst" or o.cls not in i.p.classes:
                return None
            return i.alloc(st, Obj("dict", layers=tuple(("kv", const(x), v) for x, v in o.fields.items())), n, "to_dict")
        s[".from_dict"], s[".to_dict"] = from_dict, to_dict

        def version(i, a, k, st, n, fr):
            v = cval(a[0]) if a else None
            if not isinstance(v, str):
                return i.alloc(st, Obj("inst", "edl.Version", {"text": frozenset([("op", "str", a[0] if a else EMPTY)])}), n, "version")
            m = re.fullmatch(r"v?(\d+)(?:\.(\d+))?(?:\.(\d+))?(.*)", v)
            if m is None or m.group(4) and not re.fullmatch(r"(a|b|rc|\.dev|\.post)\d+", m.group(4)):
                i.raise_exc("packaging.version.InvalidVersion", st, n, "version", fr)
                st.dead = True
                return EMPTY
            f = {x: const(int(m.group(j) or 0)) for j, x in ((1, "major"), (2, "minor"), (3, "micro"))}
            pre = (m.group(4) or "")
            f.update(text=const(v), is_prerelease=const(bool(pre) and not pre.startswith(".post")), is_postrelease=const(pre.startswith(".post")), is_devrelease=const(pre.startswith(".dev")))
            return i.alloc(st, Obj("inst", "edl.Version", f), n, ("version", v))
        for c in it.p.classes.values():
            if any(b in ("packaging.version.Version", "packaging.version") for b in it.p.mro(c) if isinstance(b, str)):
                s[c.qual] = version
        s["packaging.version.Version"] = s["packaging.version.parse"] = version

        def to_str(i, a, k, st, n, fr):
            t = next(iter(a[0])) if a and len(a[0]) == 1 else None
            o = i.obj(st, t[1]) if t is not None and t[0] == "o" else None
            return o.fields["text"] if o is not None and o.kind == "inst" and o.cls == "edl.Version" else None
        s["builtins.str"] = to_str
        s["importlib.metadata.version"] = lambda i, a, k, st, n, fr: self.installed(i, st, n, fr)

        # clock
        s["time.time"] = lambda i, a, k, st, n, fr: const(float(self.now))
        s["time.time_ns"] = lambda i, a, k, st, n, fr: const(int(self.now) * 10 ** 9)
        s["time.monotonic"] = lambda i, a, k, st, n, fr: const(float(self.now % 1000))
        s["time.sleep"] = lambda i, a, k, st, n, fr: self.note("sleep", None, n, fr) or NONE

        # databases of strings
        def db(i, a, k, st, n, fr):
            p = self.key(a[0]) if a else None
            if p is None:
                return None
            self.note("open", p, n, fr, mode="db")
            if self.failing("open", p, st, n, fr):
                return EMPTY
            oid = i.oid(("db", p))
            if oid not in st.heap:
                if (cval(a[1]) if len(a) > 1 else "r") in ("r", "w"):
                    i.raise_exc("dbm.error", st, n, "dbm.open", fr)
                    st.dead = True
                    return EMPTY
                st.heap[oid] = Obj("dict", layers=())
                self.put(st, p, S("DB"))
            return frozenset([("o", oid)])
        s["dbm.open"] = s["shelve.open"] = s["dbm.gnu.open"] = s["dbm.dumb.open"] = s["dbm.ndbm.open"] = db

        # threads
        def thread(i, a, k, st, n, fr):
            t = k.get("target", a[1] if len(a) > 1 else NONE)
            return i.alloc(st, Obj("inst", "edl.Thread", {"target": t, "args": k.get("args", NONE), "kwargs": k.get("kwargs", NONE)}), n, "thread")
        s["threading.Thread"] = thread

        def start(i, a, k, st, n, fr):
            o = is_inst(i, a, st, "edl.Thread")
            if o is None:
                return None
            args = []
            for t in o.fields["args"]:
                x = i.obj(st, t[1]) if t[0] == "o" else None
                args += [v for _, v in x.segs] if x is not None else []
            self.note("thread", o.fields["target"], n, fr)
            kw = {}
            for t in o.fields["kwargs"]:
                x = i.obj(st, t[1]) if t[0] == "o" else None
                for l in i.flat_layers(x, st) if x is not None else ():
                    if l[0] == "kv" and isinstance(cval(l[1]), str):
                        kw[cval(l[1])] = l[2]
            self.background(i, o.fields["target"], args, kw, st, n, fr)
            return NONE
        s[".start"] = s[".run"] = start
        s[".join"] = lambda i, a, k, st, n, fr: (self.note("join", None, n, fr, timeout=k.get("timeout", a[1] if len(a) > 1 else None)) or NONE) if is_inst(i, a, st, "edl.Thread") is not None else None

        def submit(i, a, k, st, n, fr):
            if is_inst(i, a, st, "edl.Pool") is None:
                return None
            self.note("thread", a[1], n, fr)
            self.background(i, a[1], a[2:], k, st, n, fr)
            return S("FUTURE")
        s["concurrent.futures.ThreadPoolExecutor"] = lambda i, a, k, st, n, fr: i.alloc(st, Obj("inst", "edl.Pool", {}), n, "pool")
        s[".submit"] = submit

    def background(self, it, target, args, kw, st, node, fr):
        it.sinks.append({})
        self.thread += 1
        s2 = st.copy()
        it.call(target, args, kw, s2, node, None)
        self.thread -= 1
        sink = it.sinks.pop()
        for e, v in sink.items():
            self.thread_exc.setdefault(e, node)
        after = join_all([x for x in [s2, *(v[0] for v in sink.values())] if not x.dead or x is not s2]) or s2
        st.heap, st.done, st.may = after.heap, after.done, after.may

    local_version = None    # None: it cannot be found out

    def installed(self, it, st, node, fr):
        if self.local_version is None:
            it.raise_exc("importlib.metadata.PackageNotFoundError", st, node, "version", fr)
            st.dead = True
            return EMPTY
        return const(self.local_version)

    # ------------------------------------------------------------------ running
    def run(self, func, args=(), kw=None):
        f = func if isinstance(func, Func) else self.ctx.prog.func(func)
        av, st, exc = self.it.run(f, list(args), kw, st=self.st)
        outs = [x.copy() for x in [*([] if st.dead else [st]), *(v[0] for v in exc.values())]]
        for x in outs:
            x.dead = False
        self.st = join_all(outs) or st
        return av, exc

    def done(self):
        self.ctx.absorb(self.it)

    def of(self, *kinds, start=0):
        return [x for x in self.log[start:] if x.kind in kinds]
