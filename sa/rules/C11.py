"""Packaged configurations refer only to existing options, groups and checks."""
import glob
import os
import re
import tomllib
from ..msgs import own_checkers, pylint_msgs
from ..fold import EnumV, Unk
from .K05 import solver_checks

MIN = {"option-exists": 15, "check-exists": 150, "group-exists": 5, "flake8-code": 100, "base-exists": 2, "no-solver-check-in-default": 5}


def as_list(v):
    if isinstance(v, list):
        return [str(x) for x in v]
    if isinstance(v, str):
        return [x.strip() for x in v.split(",")]
    return [str(v)]


def check(ctx):
    base_dir = os.path.join(ctx.root, "edulint", "config", "files")
    files = sorted(glob.glob(os.path.join(base_dir, "*.toml")))
    ctx.need(len(files) >= 4, "packaged configurations vanished")
    opts = ctx.table("edulint.option_parses.get_option_parses")
    names = {ctx.fold.call_method(o, "to_name") for o in opts}
    linters = ctx.fold.enum_members(ctx.prog.classes["edulint.linters.Linter"])
    lnames = {ctx.fold.call_method(EnumV("edulint.linters.Linter", x), "to_name") for x in linters}
    mod = "edulint.option_parses"
    lab = {n: ctx.fold.glob(mod, n) for n in ("OPTION_SETS_LABEL", "LANG_TRANSLATIONS_LABEL", "DEFAULT_ENABLER_LABEL")}
    for n, v in lab.items():
        ctx.need(isinstance(v, str), f"{n} does not fold")
    default, base_name = ctx.fold.glob("edulint.options", "DEFAULT_CONFIG"), ctx.fold.glob("edulint.options", "BASE_CONFIG")
    ctx.need(isinstance(default, str) and isinstance(base_name, str), "default configuration names do not fold")
    by_code, by_sym, checkers, pl = pylint_msgs()
    own = own_checkers(ctx.prog, ctx.fold)
    own_ids = {x for ds in own.values() for d in ds for x in (d.code, d.symbol)}
    own_names = {str(ctx.fold.class_attr(c, "name")).lower() for c in own}
    valid = set(by_code) | set(by_sym) | own_ids | checkers | own_names | {"all", "noop"} | set("CREFWI")
    data = {}
    for f in files:
        rel = os.path.relpath(f, ctx.root)
        try:
            with open(f, "rb") as h:
                data[os.path.basename(f)[:-5]] = tomllib.load(h)
            ctx.ok("parses", rel)
        except (tomllib.TOMLDecodeError, UnicodeDecodeError) as e:
            ctx.bad("parses", rel, rel, f"packaged configuration is not valid TOML: {e}")
    for n in (default, base_name):
        ctx.expect(n in data, "base-exists", n, "edulint/options.py", f"configuration {n!r} used by default is not packaged", n)

    def chain(n, seen=()):
        d = data.get(n, {})
        b = d.get("config-file", d.get("config", base_name))
        if n == base_name or not isinstance(b, str) or b not in data or b in seen:
            return [n]
        return chain(b, seen + (n,)) + [n]

    def pylint_args(d, rel, where):
        for k, v in (d.items() if isinstance(d, dict) else ()):
            if k in ("enable", "disable"):
                for x in as_list(v):
                    ctx.expect(x in valid, "check-exists", f"{os.path.basename(rel)}:{k}={x}", rel,
                               f"{where} {k}s {x!r}, which neither Pylint nor EduLint defines", x)
        return {x for k, v in (d.items() if isinstance(d, dict) else ()) if k == "enable" for x in as_list(v)}, \
            {x for k, v in (d.items() if isinstance(d, dict) else ()) if k == "disable" for x in as_list(v)}

    def flake8_args(d, rel, where):
        for k, v in (d.items() if isinstance(d, dict) else ()):
            if k in ("select", "extend-select", "ignore", "extend-ignore"):
                for x in as_list(v):
                    ctx.expect(bool(re.fullmatch(r"[A-Z]\d{0,3}|", x)), "flake8-code", f"{os.path.basename(rel)}:{k}={x}", rel,
                               f"{where} {k}s {x!r}, which is not a Flake8 code or code prefix")

    solver = solver_checks(ctx)
    for n, d in data.items():
        rel = os.path.join("edulint", "config", "files", n + ".toml")
        for k, v in d.items():
            if k in lab.values():
                continue
            o = ctx.fold.call_func("edulint.options.Option.safe_from_name", k)
            ctx.expect(isinstance(o, EnumV), "option-exists", f"{n}:{k}", rel, f"packaged configuration {n} uses the unknown option {k!r}", k)
            if not isinstance(o, EnumV):
                continue
            if isinstance(v, dict):
                ctx.expect(ctx.fold.call_method(o, "to_name") in lnames, "option-table", f"{n}:{k}", rel, f"option {k} in {n} is given a table of arguments")
            if o.name == "CONFIG_FILE" and isinstance(v, str) and not v.startswith("http"):
                ctx.expect(v in data and v != n, "base-exists", f"{n}:{v}", rel, f"packaged configuration {n} inherits from {v!r}, which is not packaged", v)
            if o.name == "PYLINT":
                pylint_args(v, rel, n)
            if o.name == "FLAKE8":
                flake8_args(v, rel, n)
        groups = {}
        for b in chain(n):
            g = data[b].get(lab["OPTION_SETS_LABEL"], {})
            if isinstance(g, dict):
                groups.update(g)
        for b in chain(n):
            for k in ("set-groups", "export-groups"):
                if k in data[b]:
                    for g in as_list(data[b][k]):
                        ctx.expect(g in groups, "group-exists", f"{n}:{k}:{g}", rel, f"{n} has group {g!r} in {k}, which neither it nor what it inherits defines", g)
        for g, to in (d.get(lab["OPTION_SETS_LABEL"]) or {}).items():
            for l, v in (to.items() if isinstance(to, dict) else ()):
                ctx.expect(l in names & lnames, "group-linter", f"{n}:{g}:{l}", rel, f"group {g} of {n} sets arguments for {l!r}, which is not a linter with arguments", l)
                if l == "pylint":
                    pylint_args(v, rel, f"{n} group {g}")
                elif l == "flake8":
                    flake8_args(v, rel, f"{n} group {g}")
        if n in (default, base_name):
            on = set()
            for b in chain(n):
                dd = data[b].get("pylint", {})
                on |= {x for k, v in dd.items() if k == "enable" for x in as_list(v)}
                sets = {g for k in ("set-groups",) for g in as_list(data[b].get(k, []))}
                for g in sets | {k for k in data[b]}:
                    t = groups.get(g, {})
                    if isinstance(t, dict) and isinstance(t.get("pylint"), dict):
                        on |= set(as_list(t["pylint"].get("enable", [])))
            for sym in sorted(solver):
                ctx.expect(not ({sym, "all", "R"} & on), "no-solver-check-in-default", f"{n}:{sym}", rel,
                           f"{n} enables {sym}, which needs the optional solver", sym)
