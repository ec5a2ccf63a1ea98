"""A span is made from a text in two ways: by taking a part of another span
(see C08), and by the functions that start a span at line 1, column 1 of any
text. Every call of the latter must be given the whole text of the document in
the function that builds it, or lie in a function out of which no span can get:
neither its result nor anything it can change (arguments passed by mutable
reference) has a type that contains a span, or, where it has, nothing of such a
type that comes from the new span is returned, stored in these arguments or in
a static. No cell contains a span."""

from checks.common import *
from checks.c08 import span_functions

TECH = "escape analysis over types and flow-insensitive taint analysis of MIR locals"
NOTE = ("All calls in the crate that make a span from a text, including defaults. That a span cannot refer to a text that "
        "is dropped is guaranteed by the compiler (C27: no unsafe code).")

CELLS = {"RefCell", "Cell", "Mutex", "RwLock", "OnceCell", "OnceLock", "LazyLock", "LazyCell"}
DEFAULTS = ("default", "unwrap_or_default")


class Bears:
    """Whether a type contains a span."""

    def __init__(self, p, span):
        self.p, self.span, self.memo = p, span, {}

    def __call__(self, ty, depth=0):
        for x in ty.walk():
            if x.k == "adt" and self.adt(x.d):
                return True
        return False

    def adt(self, a):
        if a == self.span:
            return True
        d = self.p.adts.get(a)
        if d is None or not d["local"]:
            return False
        if a not in self.memo:
            self.memo[a] = False
            self.memo[a] = any(self(self.p.types[f["ty"]]) for v in d["variants"] for f in v["fields"])
        return self.memo[a]


def outer(path):
    return path.split("::{closure")[0]


def check(p, rep):
    span = p.adt("Span")
    bears = Bears(p, span)
    starts = span_functions(p, span)[0]
    rep.floor("functions that start a span", len(starts), 1)
    doc = p.adt("Document")
    roots = n = 0
    todo, done = sorted(starts) + ["default"], set()
    while todo:
        start = todo.pop()
        if start in done:
            continue
        done.add(start)
        for fn in p.fns.values():
            if fn.path in starts or is_default(fn):
                continue
            for bi, b in fn.live_blocks():
                t = b["t"]
                c = fn.callee(t) if t["k"] == "call" else None
                if c is None or not (c.path == start or start == "default" and c.name in DEFAULTS and makes_default(p, fn, t, span, bears)):
                    continue
                n += 1
                key = "%s/%s" % (p.last(outer(fn.path)), c.name)
                rep.ob(key, loc(t["s"]))
                top = p.fns.get(outer(fn.path), fn)
                arg = text_param(fn, t)
                if arg == 2 and fn is not top and any(x.adt() == doc for x in top.locals[0].walk()) and fn.locals[2].peel().s == "alloc::string::String":
                    roots += 1
                    continue
                if not any(bears(x) for x in outputs(top)):
                    continue
                if arg and fn is top and not fn.public and not fn.trait:
                    # makes a span of what it is given: see its callers
                    todo.append(fn.path)
                    continue
                how = escapes(p, fn, bi, t, bears)
                if how:
                    rep.bad(key, t["s"], "%s makes a span of a text that is not the document's and %s" % (fn.path, how))
    rep.floor("calls that make a span of a text", n, 1)
    rep.floor("spans of the whole document", roots, 1)
    for a, d in p.adts.items():
        if not d["local"]:
            continue
        for f in (f for v in d["variants"] for f in v["fields"]):
            for x in p.types[f["ty"]].walk():
                if x.k == "adt" and p.last(x.d) in CELLS and any(bears(y) for y in x.args):
                    rep.bad("cell/" + p.last(a), d.get("span", "-"), "%s.%s is a cell that contains a span" % (a, f["name"]))


def is_default(fn):
    return fn.name == "default" and fn.trait and fn.trait.endswith("::Default")


def makes_default(p, fn, t, span, bears):
    """Whether this call may make a span by its default."""
    ty = fn.place_ty(t["p"])
    return bears(ty) and defaulted(p, ty, span, set())


def defaulted(p, ty, span, seen):
    """Whether the default of this type contains a span."""
    if ty.k == "tuple":
        return any(defaulted(p, x, span, seen) for x in ty.args)
    if ty.k != "adt":
        return False
    if ty.d == span:
        return True
    d = p.adts.get(ty.d)
    if d is None or not d["local"] or ty.d in seen:
        return False
    seen.add(ty.d)
    if d["kind"] == "enum":
        return False
    return any(defaulted(p, x, span, seen) for x in ty.args) or any(
        defaulted(p, p.types[f["ty"]], span, seen) for f in p.fields(ty.d))


def outputs(fn):
    """Types of all that a function can hand out."""
    yield fn.locals[0]
    for i in range(fn.argc):
        for x in fn.locals[i + 1].walk():
            if x.k == "ref" and x.mut:
                yield x.inner


def text_param(fn, t):
    """The parameter that this call's argument is, as a whole."""
    place = next(iter(operand_places(t["a"])), None)
    seen = set()
    while place is not None and place["l"] not in seen:
        l = place["l"]
        seen.add(l)
        if 1 <= l <= fn.argc:
            return 0 if any(isinstance(e, dict) for e in place.get("p", [])) else l
        if any(isinstance(e, dict) for e in place.get("p", [])):
            return 0
        defs = []
        for bi, b in fn.live_blocks():
            for s in b["st"]:
                if "r" in s and s["p"]["l"] == l and not s["p"].get("p"):
                    defs.append([y for y in operand_places(s["r"])] if s["r"]["k"] in ("use", "ref", "cast", "rawptr") else None)
            u = b["t"]
            if u["k"] == "call" and u["p"]["l"] == l and not u["p"].get("p"):
                c = fn.callee(u)
                ok = c is not None and c.name in ("deref", "as_str", "as_ref", "borrow") and not c.local
                defs.append(list(operand_places(u["a"])) if ok else None)
        if len(defs) != 1 or not defs[0] or len(defs[0]) != 1:
            return 0
        place = defs[0][0]
    return 0


def escapes(p, fn, bi, t, bears):
    tainted = {t["p"]["l"]}
    refs = {}
    for _, b in fn.live_blocks():
        for s in b["st"]:
            r = s.get("r")
            if r and r["k"] in ("ref", "rawptr") and r.get("mut"):
                refs.setdefault(s["p"]["l"], set()).add(r["p"]["l"])
            elif r and r["k"] in ("use", "cast"):
                for pl in operand_places(r):
                    if fn.locals[pl["l"]].k == "ref":
                        refs.setdefault(s["p"]["l"], set()).add(pl["l"])

    def behind(l):
        out, todo = set(), [l]
        while todo:
            x = todo.pop()
            if x not in out:
                out.add(x)
                todo.extend(refs.get(x, ()))
        return out

    changed = True
    while changed:
        changed = False
        for _, b in fn.live_blocks():
            for s in b["st"]:
                if "r" in s and any(pl["l"] in tainted and bears(fn.place_ty(pl)) for pl in operand_places(s["r"])):
                    ls = {s["p"]["l"]}
                    if any(e == "*" for e in s["p"].get("p", [])):
                        ls |= behind(s["p"]["l"])
                    new = {l for l in ls if bears(fn.locals[l])} - tainted
                    if new:
                        tainted |= new
                        changed = True
            u = b["t"]
            if u["k"] != "call":
                continue
            args = [pl for pl in operand_places(u["a"])]
            if any(pl["l"] in tainted and bears(fn.place_ty(pl)) for pl in args):
                ls = {u["p"]["l"]} if bears(fn.place_ty(u["p"])) else set()
                for pl in args:
                    ty = fn.place_ty(pl)
                    if ty.k == "ref" and ty.mut and bears(ty.inner):
                        ls |= {l for l in behind(pl["l"]) if bears(fn.locals[l])}
                if ls - tainted:
                    tainted |= ls
                    changed = True
    if 0 in tainted:
        return "returns it or something that contains it"
    for i in range(fn.argc):
        if i + 1 in tainted and fn.locals[i + 1].k == "ref" and fn.locals[i + 1].mut:
            return "stores it in its argument %d" % (i + 1)
    if "{closure" in fn.path and 1 in tainted:
        return "stores it in a variable of the function around it"
    return None
