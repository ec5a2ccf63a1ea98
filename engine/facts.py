"""Obtains and indexes the facts rustc has about /repo's current working tree.

The driver in ../tool runs as RUSTC_WORKSPACE_WRAPPER under `cargo check`, with
a target directory of its own that is removed afterwards, so that every run
sees the current source."""

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ADP_REPO", "/repo")
CRATE = "asciidoc_parser"
TOOL = os.path.join(VERIF, "tool")
DRIVER = os.path.join(TOOL, "target", "debug", "adp-facts")


class FactsError(Exception):
    pass


def _env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN"):
        env.pop(k, None)
    return env


def build_driver():
    """Builds the driver if it is missing or older than its source."""
    srcs = [os.path.join(TOOL, "Cargo.toml")] + [
        os.path.join(TOOL, "src", f) for f in os.listdir(os.path.join(TOOL, "src"))
    ]
    if os.path.exists(DRIVER):
        t = os.path.getmtime(DRIVER)
        if all(os.path.getmtime(s) <= t for s in srcs):
            return
    p = subprocess.run(
        ["cargo", "+nightly", "build", "--offline"], cwd=TOOL, env=_env(),
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise FactsError("cannot build the driver:\n" + p.stdout[-4000:])
    os.utime(DRIVER)


def dump(repo=REPO):
    """Facts about the crate in `repo`, as parsed JSON."""
    pre = os.environ.get("ADP_FACTS_JSON")
    if pre:
        with open(pre) as f:
            return json.load(f)
    build_driver()
    sysroot = subprocess.run(
        ["rustc", "+nightly", "--print", "sysroot"], env=_env(), text=True,
        stdout=subprocess.PIPE, check=True).stdout.strip()
    tmp = tempfile.mkdtemp(prefix="adp-facts-")
    try:
        out = os.path.join(tmp, "facts.json")
        env = _env()
        env.update({
            "LD_LIBRARY_PATH": os.path.join(sysroot, "lib"),
            "RUSTC_WORKSPACE_WRAPPER": DRIVER,
            "ADP_FACTS_CRATE": CRATE,
            "ADP_FACTS_OUT": out,
            "CARGO_TARGET_DIR": os.path.join(tmp, "target"),
            "CARGO_INCREMENTAL": "0",
        })
        p = subprocess.run(
            ["cargo", "+nightly", "check", "--offline", "-p", "asciidoc-parser", "--lib"],
            cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or not os.path.exists(out):
            raise FactsError("cargo check failed:\n" + p.stdout[-4000:])
        with open(out) as f:
            return json.load(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------------------

_LT = r"'(?:[A-Za-z_][A-Za-z0-9_]*)"


def norm(p):
    """A path without lifetimes, and with impl blocks named by their type."""
    p = re.sub(r"for<%s(?:, %s)*> " % (_LT, _LT), "", p)
    p = re.sub(r"::<%s(?:, %s)*>" % (_LT, _LT), "", p)
    p = re.sub(r"<%s(?:, %s)*>" % (_LT, _LT), "", p)
    p = re.sub(r"<(?:%s, )+" % _LT, "<", p)
    p = re.sub(r"&%s " % _LT, "&", p)
    p = re.sub(r" \+ %s" % _LT, "", p)
    # a::b::<impl X>::f  ->  X::f ; a::<impl T for X>::f -> <X as T>::f
    m = re.match(r"^[\w:#]*<impl (.*)$", p)
    if m:
        rest = m.group(1)
        depth = 0
        for i, c in enumerate(rest):
            if c == "<":
                depth += 1
            elif c == ">":
                if i > 0 and rest[i - 1] == "-":
                    continue
                if depth == 0:
                    head, tail = rest[:i], rest[i + 1:]
                    if " for " in head:
                        tr, ty = head.split(" for ", 1)
                        p = "<%s as %s>%s" % (ty, tr, tail)
                    else:
                        p = head + tail
                    break
                depth -= 1
    return p


class Ty:
    __slots__ = ("i", "k", "s", "raw", "prog")

    def __init__(self, i, raw, prog):
        self.i = i
        self.raw = raw
        self.k = raw["k"]
        self.s = norm(raw["s"])
        self.prog = prog

    @property
    def d(self):
        return norm(self.raw.get("d", ""))

    @property
    def args(self):
        return [self.prog.types[x] for x in self.raw.get("a", [])]

    @property
    def inner(self):
        return self.prog.types[self.raw["t"]]

    @property
    def mut(self):
        return self.raw.get("mut", False)

    def peel(self):
        t = self
        while t.k in ("ref", "ptr"):
            t = t.inner
        return t

    def adt(self):
        """Path of the ADT behind references, or None."""
        t = self.peel()
        return t.d if t.k == "adt" else None

    def walk(self, seen=None):
        """This type and all types it mentions in its arguments."""
        seen = seen if seen is not None else set()
        if self.i in seen:
            return
        seen.add(self.i)
        yield self
        for x in self.raw.get("a", []):
            yield from self.prog.types[x].walk(seen)
        if "t" in self.raw:
            yield from self.inner.walk(seen)

    def __repr__(self):
        return self.s


class Callee:
    """A call target: `path` is the resolved function."""
    __slots__ = ("path", "decl", "name", "args", "trait", "kind", "local", "self_ty")

    def __init__(self, raw, prog):
        self.decl = norm(raw["d"])
        self.path = norm(raw.get("r") or raw["d"])
        self.name = raw["n"]
        self.args = [prog.types[x] for x in raw["a"]]
        self.trait = norm(raw["trait"]) if "trait" in raw else None
        self.kind = raw.get("ik")
        self.local = raw.get("local", False)
        self.self_ty = prog.types[raw["self"]] if "self" in raw else (
            self.args[0] if self.trait and self.args else None)

    def __repr__(self):
        return self.path


class Fn:
    def __init__(self, raw, prog):
        self.raw = raw
        self.prog = prog
        self.path = norm(raw["path"])
        self.kind = raw["kind"]
        self.name = raw.get("name") or ""
        self.span = raw["span"]
        self.file = raw["span"]["f"]
        self.line = raw["span"]["l"]
        self.argc = raw["argc"]
        self.locals = [prog.types[l["t"]] for l in raw["locals"]]
        self.names = [l.get("n") for l in raw["locals"]]
        self.blocks = raw["blocks"]
        self.self_ty = prog.types[raw["self"]] if "self" in raw else None
        self.trait = norm(raw["trait"]) if "trait" in raw else None
        self.in_trait = norm(raw["in_trait"]) if "in_trait" in raw else None
        self.derived = raw.get("derived", False)
        self.owner = norm(raw["owner"]) if "owner" in raw else None
        self.reachable = raw.get("reachable", False)
        self.public = raw.get("public", False)
        self._callees = None
        self._succ = {}

    @property
    def self_adt(self):
        return self.self_ty.adt() if self.self_ty else None

    def callee(self, term):
        """Callee of a call terminator, or None for a function pointer."""
        f = term["f"]
        if "ptr" in f:
            return None
        c = f.get("_c")
        if c is None:
            c = f["_c"] = Callee(f, self.prog)
        return c

    def place_ty(self, place):
        """Type of a place; of what contains it where the projection has none."""
        ty = self.locals[place["l"]]
        for e in place.get("p", []):
            if e == "*":
                if ty.k in ("ref", "ptr"):
                    ty = ty.inner
                elif ty.k == "adt" and ty.args:
                    ty = ty.args[0]
            elif isinstance(e, dict) and "t" in e:
                ty = self.prog.types[e["t"]]
            elif isinstance(e, dict) and ty.k in ("slice", "array"):
                ty = ty.inner
        return ty

    def live_blocks(self):
        for i, b in enumerate(self.blocks):
            if not b["cleanup"]:
                yield i, b

    def calls(self):
        """(block, terminator, Callee) of every call outside cleanup."""
        for i, b in self.live_blocks():
            t = b["t"]
            if t["k"] == "call":
                yield i, t, self.callee(t)

    def succ(self, i):
        s = self._succ.get(i)
        if s is None:
            t = self.blocks[i]["t"]
            k = t["k"]
            if k in ("goto", "drop", "assert"):
                s = [t["to"]]
            elif k == "switch":
                s = [b for _, b in t["v"]] + [t["else"]]
            elif k == "call":
                s = [t["to"]] if t["to"] is not None else []
            else:
                s = []
            self._succ[i] = s
        return s

    def reachable_blocks(self):
        seen = {0}
        todo = [0]
        while todo:
            b = todo.pop()
            for s in self.succ(b):
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        return seen

    def __repr__(self):
        return self.path


def loc(span):
    return "%s:%d" % (span["f"], span["l"])


class Program:
    def __init__(self, raw):
        self.raw = raw
        self.types = []
        for i, t in enumerate(raw["types"]):
            self.types.append(Ty(i, t, self))
        self.adts = {norm(a["path"]): a for a in raw["adts"]}
        self.fns = {}
        self.by_name = {}
        for f in raw["fns"]:
            fn = Fn(f, self)
            p = fn.path
            n = 2
            while p in self.fns:
                p = "%s#%d" % (fn.path, n)
                n += 1
            fn.path = p
            self.fns[p] = fn
            self.by_name.setdefault(fn.name, []).append(fn)
        self.impls = raw["impls"]
        for im in self.impls:
            im["_self"] = self.types[im["self"]]
            im["_trait"] = norm(im["trait"]) if "trait" in im else None
        self.traits = {norm(t["path"]): t for t in raw["traits"]}
        self.statics = {norm(s["path"]): s for s in raw["statics"]}
        self._closures = None
        self._edges = None

    # --- lookups ---------------------------------------------------------

    def last(self, path):
        """Last segment of a type path."""
        return re.sub(r"<.*", "", path).split("::")[-1]

    def adt(self, name):
        """The local ADT with this last path segment."""
        r = [p for p, a in self.adts.items() if a["local"] and self.last(p) == name]
        if len(r) != 1:
            raise FactsError("type %s: found %s" % (name, r))
        return r[0]

    def variants(self, adt):
        return [v["name"] for v in self.adts[adt]["variants"]]

    def fields(self, adt, variant=None):
        vs = self.adts[adt]["variants"]
        v = vs[0] if variant is None else [x for x in vs if x["name"] == variant][0]
        return v["fields"]

    def method(self, ty, name, trait=None):
        """The method of a local type, by last path segments."""
        r = []
        for fn in self.by_name.get(name, []):
            if fn.kind != "fn" or not fn.self_ty:
                continue
            a = fn.self_adt
            if a is None or self.last(a) != ty:
                continue
            if trait is None and fn.trait:
                continue
            if trait is not None and (fn.trait is None or self.last(fn.trait) != trait):
                continue
            r.append(fn)
        if len(r) != 1:
            raise FactsError("method %s::%s%s: found %s" % (
                ty, name, " of " + trait if trait else "", [x.path for x in r]))
        return r[0]

    def func(self, name, module=None):
        """A free function by name."""
        r = [fn for fn in self.by_name.get(name, [])
             if fn.kind == "fn" and not fn.self_ty and not fn.in_trait
             and (module is None or module in fn.path)]
        if len(r) != 1:
            raise FactsError("function %s: found %s" % (name, [x.path for x in r]))
        return r[0]

    def trait_impls(self, trait):
        """Impl blocks of the trait with this last segment."""
        return [im for im in self.impls if im["_trait"] and self.last(im["_trait"]) == trait]

    def closures_of(self, fn):
        """Closures whose innermost enclosing body is `fn` or nested in it."""
        return [f for f in self.fns.values()
                if f.kind == "closure" and f.path.startswith(fn.path + "::{closure")]

    def source(self, span):
        path = os.path.join(REPO, span["f"])
        try:
            with open(path) as f:
                return f.read().splitlines()[span["l"] - 1].strip()
        except (OSError, IndexError):
            return ""

    # --- call graph ------------------------------------------------------

    def edges(self):
        """fn path -> set of local fn paths it may call, create or pass on.

        A closure counts as called where it is created. A call of a trait
        method that is not resolved goes to every local impl of the method; a
        call of a foreign function that is given local types by its generic
        arguments may call their implementations of foreign traits."""
        if self._edges is not None:
            return self._edges
        impl_of = {}
        adt_impls = {}
        for im in self.impls:
            for it in im["items"]:
                if "trait_item" in it:
                    impl_of.setdefault(norm(it["trait_item"]), []).append(norm(it["path"]))
            a = im["_self"].adt()
            if a and im["_trait"]:
                for it in im["items"]:
                    adt_impls.setdefault(a, []).append((im["_trait"], norm(it["path"])))
        edges = {}
        for fn in self.fns.values():
            out = set()
            for i, b in fn.live_blocks():
                for s in b["st"]:
                    self._edge_scan(s, out)
                t = b["t"]
                if t["k"] == "call":
                    for a in t["a"]:
                        self._edge_scan(a, out)
                    c = fn.callee(t)
                    if c is None:
                        continue
                    if c.path in self.fns:
                        out.add(c.path)
                    if c.kind in ("virtual", "unresolved"):
                        for p in impl_of.get(c.decl, []):
                            out.add(p)
                        if c.decl in self.fns:
                            out.add(c.decl)
                    if not c.local or (c.path in self.fns and self.hands_on(self.fns[c.path])):
                        for ga in c.args:
                            for x in ga.walk():
                                if x.k == "closure" and x.d in self.fns:
                                    out.add(x.d)
                                if x.k == "fndef" and x.d in self.fns:
                                    out.add(x.d)
                                if x.k == "adt" and x.raw.get("local"):
                                    for tr, p in adt_impls.get(x.d, []):
                                        if not tr.startswith("crate::"):
                                            out.add(p)
                elif t["k"] == "drop":
                    pass
            edges[fn.path] = {e for e in out if e in self.fns}
        self._edges = edges
        return edges

    def hands_on(self, fn):
        """Whether a body calls foreign functions with types that its own
        caller chooses."""
        return any(c is not None and (not c.local or c.kind in ("virtual", "unresolved")) and any(x.k == "param" for a in c.args for x in a.walk())
                   for _, _, c in fn.calls())

    def _edge_scan(self, x, out):
        if isinstance(x, dict):
            if x.get("ak") == "closure":
                out.add(norm(x["d"]))
            if "fn" in x and isinstance(x["fn"], dict) and "d" in x["fn"]:
                f = x["fn"]
                out.add(norm(f.get("r") or f["d"]))
            if "promoted" in x:
                out.add(norm(x["promoted"]))
            if "const" in x:
                out.add(norm(x["const"]))
            v = x.get("v")
            if isinstance(v, dict) and "static" in v:
                out.add(norm(v["static"]))
            for y in x.values():
                if isinstance(y, (dict, list)):
                    self._edge_scan(y, out)
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, (dict, list)):
                    self._edge_scan(y, out)

    def reach(self, roots, stop=()):
        """Functions reachable from `roots` without entering `stop`."""
        e = self.edges()
        seen = set()
        todo = [r for r in roots if r not in stop]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for y in e.get(x, ()):
                if y not in seen and y not in stop:
                    todo.append(y)
        return seen

    def path_to(self, roots, target):
        """A call path from one of `roots` to `target`, for reports."""
        e = self.edges()
        prev = {r: None for r in roots}
        todo = list(roots)
        while todo:
            x = todo.pop(0)
            if x == target:
                r = []
                while x is not None:
                    r.append(x)
                    x = prev[x]
                return r[::-1]
            for y in sorted(e.get(x, ())):
                if y not in prev:
                    prev[y] = x
                    todo.append(y)
        return []

    def public_roots(self):
        """Bodies a user of the crate can call, and those of statics."""
        r = []
        for fn in self.fns.values():
            if fn.kind == "fn" and (fn.reachable or fn.trait):
                r.append(fn.path)
        return r


def load():
    return Program(dump())
