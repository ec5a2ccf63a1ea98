"""Effect analysis by allow-list: every library function that any body of the
crate calls, passes on or coerces must belong to a library module without
effects on the outside world (core, alloc, std::collections, lexical std::path
and OsStr operations, lazy initialisation, and the listed pure dependencies).
Any other std item, foreign function or inline assembly is a violation. The
include handler trait is the one way out and must still be called."""

from checks.common import *

TECH = "allow-list effect analysis of all calls in the MIR"
NOTE = ("Exhaustive over every call, function constant and type in the crate's MIR. Trusts that core, alloc and the "
        "listed dependencies (regex, memchr, bytecount, self_cell, percent-encoding) have no effects. The caller's "
        "include handler and renderer are outside the property.")

OK_CRATES = {"core", "alloc", "regex", "regex_automata", "regex_syntax", "self_cell", "percent_encoding", "memchr",
             "bytecount", "thiserror", "crate"}
OK_STD = ("std::collections::", "std::sync::lazy_lock::", "std::hash::", "std::ffi::os_str::", "std::f64", "std::f32")
#: Path methods that work on the text of the path only
LEXICAL = {"new", "file_stem", "file_name", "parent", "extension", "components", "join", "with_extension", "with_file_name",
           "to_str", "to_string_lossy", "as_os_str", "starts_with", "ends_with", "strip_prefix", "is_absolute", "is_relative",
           "has_root", "display", "iter", "ancestors", "as_path", "to_path_buf", "push", "pop", "from", "into_os_string",
           "set_extension", "set_file_name", "clone", "eq", "as_ref", "deref", "into_path_buf", "as_component_path", "fmt", "next"}


def paths(s):
    """Leading `crate::module...` paths mentioned in a callee path."""
    return re.findall(r"(?<![\w:])((?:core|alloc|std|[a-z_][a-z0-9_]*)(?:::[A-Za-z_][\w]*)+)", s)


def foreign_bad(path, name):
    for q in paths(path):
        c = q.split("::")[0]
        if c == "std":
            if q.startswith(OK_STD):
                continue
            if q.startswith("std::path::") and name in LEXICAL:
                continue
            if q.startswith("std::error::"):
                continue
            return q
        # Panics print a message; C01 is about them.
        if c in OK_CRATES:
            if q.startswith(("core::arch", "core::intrinsics::volatile", "core::ptr::write_volatile", "core::ptr::read_volatile")):
                return q
            continue
        if re.match(r"^(str|char|bool|u\d+|i\d+|usize|isize|f32|f64|r#)", c):
            continue
        return q
    return None


def check(p, rep):
    nfn = 0
    seen = {}
    for fn in p.fns.values():
        nfn += 1
        for i, b in fn.live_blocks():
            t = b["t"]
            if t["k"] == "call":
                c = fn.callee(t)
                if c is not None and not c.local:
                    seen.setdefault((c.path, c.name), (fn, t["s"]))
                    seen.setdefault((c.decl, c.name), (fn, t["s"]))
            elif t["k"] not in ("goto", "switch", "return", "drop", "assert", "unreachable", "resume", "abort", "terminate"):
                rep.bad("terminator/%s/%s" % (fn.path, t["k"]), t.get("s", fn.raw["span"]), "inline assembly or an unknown control transfer")
            for s in b["st"] + [t]:
                for k in consts(s):
                    f = k.get("fn")
                    if f:
                        q = norm(f.get("r") or f["d"])
                        if q not in p.fns:
                            seen.setdefault((q, f["n"]), (fn, s.get("s", fn.raw["span"])))
    for (path, name), (fn, span) in sorted(seen.items()):
        key = "call/" + path
        rep.ob(key, "%s in %s" % (loc(span), fn.path))
        q = foreign_bad(path, name)
        if q:
            rep.bad("effect/%s/%s" % (fn.path, path), span, "%s calls %s, which may reach outside the parser" % (fn.path, path))
    # The handler is the only way to another file.
    n = 0
    for fn in p.fns.values():
        for i, t, c in fn.calls():
            if c is not None and c.trait and p.last(c.trait) == "IncludeFileHandler":
                n += 1
                rep.ob("handler/" + fn.path, loc(t["s"]))
    rep.floor("calls of the include handler", n, 1)
    rep.floor("bodies", nfn, 200)
    rep.floor("library functions called", len(seen), 50)
