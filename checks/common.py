"""Helpers shared by the checks."""
import re

from engine.facts import norm, loc, FactsError


def operand_places(x):
    """Places mentioned in an operand or rvalue."""
    if isinstance(x, dict):
        if "l" in x and isinstance(x["l"], int):
            yield x
        for k, y in x.items():
            if k in ("s", "t", "fn"):
                continue
            if isinstance(y, (dict, list)):
                yield from operand_places(y)
    elif isinstance(x, list):
        for y in x:
            if isinstance(y, (dict, list)):
                yield from operand_places(y)


def consts(x):
    """Constants mentioned anywhere in a statement, terminator or operand."""
    if isinstance(x, dict):
        if "k" in x and isinstance(x["k"], dict):
            yield x["k"]
        for y in x.values():
            if isinstance(y, (dict, list)):
                yield from consts(y)
    elif isinstance(x, list):
        for y in x:
            if isinstance(y, (dict, list)):
                yield from consts(y)


def from_macro(span, *names):
    """Whether a span comes from an expansion of one of these macros."""
    return any(any(m == n or m.endswith("::" + n) for n in names) for m in span.get("m", []))


# ---------------------------------------------------------------------------
# Where string and character constants go, by forward propagation through
# moves, references and aggregates inside one body (flow-insensitive).

def const_texts(p, k, depth=0):
    """Texts that a constant operand holds (through promoteds and arrays)."""
    from engine.fmt import decode
    ty = p.types[k["t"]]
    out = []

    def walk(v, ty):
        if isinstance(v, str):
            out.append(v)
        elif isinstance(v, bool):
            pass
        elif isinstance(v, int):
            if ty is not None and ty.peel().k == "char":
                out.append(chr(v))
        elif isinstance(v, dict):
            if "bytes" in v:
                try:
                    out.extend(x for x in decode(v["bytes"]) if isinstance(x, str))
                except (ValueError, IndexError, UnicodeDecodeError):
                    out.append(bytes(v["bytes"]).decode("latin1"))
            elif "ref" in v:
                walk(v["ref"], ty)
            elif "fields" in v:
                for x in v["fields"]:
                    walk(x, None)
        elif isinstance(v, list):
            for x in v:
                walk(x, ty)

    if "promoted" in k and depth < 4:
        fn = p.fns.get(norm(k["promoted"]))
        if fn is not None:
            for _, b in fn.live_blocks():
                for s in b["st"] + [b["t"]]:
                    for k2 in consts(s):
                        out.extend(const_texts(p, k2, depth + 1))
            return out
    if "v" in k:
        walk(k["v"], ty)
    elif "const" in k and depth < 4:
        fn = p.fns.get(norm(k["const"]))
        if fn is not None:
            for _, b in fn.live_blocks():
                for s in b["st"] + [b["t"]]:
                    for k2 in consts(s):
                        out.extend(const_texts(p, k2, depth + 1))
    return out


def const_uses(p, fn):
    """(text, sink, span) of every text constant in a body: the sink is the
    path of the function that it is passed to, 'return', 'store' (into memory
    behind a reference) or 'agg:TYPE'."""
    # local -> places it flows to
    flow = {}
    sinks = {}
    start = []
    for i, b in fn.live_blocks():
        for s in b["st"]:
            if "r" not in s:
                continue
            d = s["p"]
            deref = any(e == "*" for e in d.get("p", []))
            if s["r"]["k"] == "discr":
                continue
            for pl in operand_places(s["r"]):
                flow.setdefault(pl["l"], set()).add(d["l"])
                if deref:
                    sinks.setdefault(pl["l"], set()).add(("store", i))
            for k in consts(s["r"]):
                for x in const_texts(p, k):
                    start.append((x, d["l"], s["s"], "store" if deref else None))
        t = b["t"]
        if t["k"] == "call":
            c = fn.callee(t)
            name = c.path if c else "<fn pointer>"
            through = c is not None and c.name in THROUGH and len(t["a"]) == 1
            for a in t["a"]:
                for pl in operand_places(a):
                    if through:
                        flow.setdefault(pl["l"], set()).add(t["p"]["l"])
                    else:
                        sinks.setdefault(pl["l"], set()).add((name, i))
                for k in consts(a):
                    for x in const_texts(p, k):
                        start.append((x, t["p"]["l"] if through else None, t["s"], None if through else name))
    for x, l, span, direct in start:
        if direct is not None:
            yield x, direct, span
        if l is None:
            continue
        seen = set()
        todo = [l]
        while todo:
            y = todo.pop()
            if y in seen:
                continue
            seen.add(y)
            if y == 0:
                yield x, "return", span
            for n, _ in sinks.get(y, ()):
                yield x, n, span
            todo.extend(flow.get(y, ()))


#: calls whose result is (a copy of) their only argument
THROUGH = {"to_owned", "to_string", "into", "from", "deref", "as_ref", "as_str", "borrow", "clone", "into_iter", "iter",
           "as_bytes", "into_boxed_str", "into_string", "new_display"}


def unsize_casts(p, fn, trait):
    """(span, source type) of coercions to `dyn trait` in a body."""
    for i, b in fn.live_blocks():
        for s in b["st"]:
            r = s.get("r")
            if r and r["k"] == "cast" and "Unsize" in r["ck"]:
                tgt = p.types[r["t"]]
                if any(x.k == "dyn" and trait in x.s for x in tgt.walk()):
                    o = r["o"]
                    pl = o.get("c") or o.get("m")
                    src = None
                    if pl is not None and not pl.get("p"):
                        src = fn.locals[pl["l"]]
                    elif "k" in o:
                        src = p.types[o["k"]["t"]]
                    yield s["s"], src


# ---------------------------------------------------------------------------

def type_closure(p, a):
    """Local types reachable through the fields of a type."""
    seen = set()
    todo = [a]
    while todo:
        a = todo.pop()
        if a in seen or a not in p.adts or not p.adts[a]["local"]:
            continue
        seen.add(a)
        for v in p.adts[a]["variants"]:
            for f in v["fields"]:
                for x in p.types[f["ty"]].walk():
                    if x.k == "adt":
                        todo.append(x.d)
    return seen


def model_types(p):
    """The parts of a parsed document. The self-referential cell of Document
    hides its contents from the field types, so the search starts from other
    parts as well."""
    model = set()
    for name in ("Document", "Block", "Content", "Span", "Catalog", "Header", "Warning", "SourceMap", "InternalDependent"):
        try:
            model |= type_closure(p, p.adt(name))
        except FactsError:
            pass
    return model
