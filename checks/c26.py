"""Type-based analysis: no static is mutable or has interior mutability other
than a lazily initialised value (LazyLock) of a type that is itself free of
interior mutability; no type of the crate has a field with interior
mutability; no thread-local is used and no memory is leaked into a 'static
reference."""

from checks.common import *

TECH = "type-level query over statics, fields, locals and calls"
NOTE = ("Exhaustive over all statics, all fields of all types and all calls of the crate. Regex keeps a cache pool "
        "internally, which is assumed not to affect results. Trait objects supplied by the caller are outside the property.")

MUTABLE = re.compile(r"\b(core::cell::\w+|(?:std|core|alloc)::sync::(?:\w+::)*(Mutex|RwLock|OnceLock|Atomic\w+|Condvar|Once|Barrier|mpsc\w*)\b"
                     r"|(?:core|std)::sync::atomic::\w+|std::cell::\w+|std::sync::once_lock::\w+|std::sync::poison::\w+|std::sync::mutex::\w+"
                     r"|std::thread::local::\w+|std::sync::mpsc::\w+)")
LAZY = re.compile(r"^(?:std::sync::lazy_lock::LazyLock|core::cell::lazy::LazyCell)<")
TRUSTED = ("regex::", "self_cell::")


def mutable_inside(p, ty, seen=None):
    """A type with interior mutability mentioned in `ty`, through local ADTs."""
    seen = seen if seen is not None else set()
    for x in ty.walk():
        if x.i in seen:
            continue
        seen.add(x.i)
        m = MUTABLE.search(x.s) if x.k == "adt" and MUTABLE.match(x.d) else None
        if m:
            return x.s
        if x.k == "adt" and x.raw.get("local") and x.d in p.adts:
            for v in p.adts[x.d]["variants"]:
                for f in v["fields"]:
                    r = mutable_inside(p, p.types[f["ty"]], seen)
                    if r:
                        return r
    return None


def check(p, rep):
    n = 0
    for path, s in sorted(p.statics.items()):
        n += 1
        rep.ob("static/" + path)
        ty = p.types[s["ty"]]
        if s["mutable"]:
            rep.bad("static/" + path, s["span"], "static mut %s" % path)
            continue
        if LAZY.match(ty.s):
            for a in ty.args[:1]:
                r = mutable_inside(p, a)
                if r:
                    rep.bad("static/" + path, s["span"], "the value of static %s can be changed after initialisation (%s)" % (path, r))
        elif not s["freeze"] or mutable_inside(p, ty):
            rep.bad("static/" + path, s["span"], "static %s has interior mutability (%s)" % (path, ty.s))
    rep.floor("statics", n, 15)
    nf = 0
    for path, a in sorted(p.adts.items()):
        if not a["local"]:
            continue
        for v in a["variants"]:
            for f in v["fields"]:
                nf += 1
                rep.ob("field/%s.%s" % (path, f["name"]))
                ty = p.types[f["ty"]]
                if any(x.k == "adt" and (MUTABLE.match(x.d) or LAZY.match(x.s)) for x in ty.walk()):
                    rep.bad("field/%s.%s" % (path, f["name"]), a.get("span", "-"),
                            "field %s of %s can be changed through a shared reference (%s)" % (f["name"], path, ty.s))
    rep.floor("fields", nf, 150)
    nl = 0
    for fn in p.fns.values():
        for ty in fn.locals:
            nl += 1
            for x in ty.walk():
                if x.k == "adt" and x.d.startswith("std::thread::local"):
                    rep.bad("thread-local/" + fn.path, fn.raw["span"], "%s uses a thread-local variable" % fn.path)
                if x.k == "ptr" and x.mut and not fn.raw["span"].get("m") and "self_cell" not in fn.path and not from_foreign_macro(fn):
                    pass
        for i, t, c in fn.calls():
            if c is None:
                continue
            if c.name == "leak" and not c.local:
                rep.bad("leak/" + fn.path, t["s"], "%s leaks memory into a reference that outlives every document" % fn.path)
            if "thread::local" in c.path:
                rep.bad("thread-local/" + fn.path, t["s"], "%s uses a thread-local variable" % fn.path)
    rep.count("locals", nl)


def from_foreign_macro(fn):
    return bool(fn.raw["span"].get("m"))
