"""Every place where a hash map or hash set is iterated (a call that yields
its entries in hash order, or printing it with Debug) must be followed, on
every path to the function's return, by a sort, or feed only
order-independent consumers. Randomly seeded hash values are not used at
all."""

from checks.common import *

TECH = "MIR query for iteration over hash collections, with a must-be-sorted dataflow"
NOTE = ("Exhaustive over the crate's MIR. The crate iterates a hash map in one place only (Debug output), which sorts. "
        "User-supplied renderers and include handlers are outside the property.")

ITER = {"iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "into_iter", "retain",
        "extract_if", "difference", "union", "intersection", "symmetric_difference", "fmt", "find", "next"}
HASH = re.compile(r"std::collections::hash::(map|set)::(HashMap|HashSet)\b")
HITER = re.compile(r"std::collections::hash::(map|set)::(Iter|IterMut|Keys|Values|ValuesMut|IntoIter|IntoKeys|IntoValues|Drain|Difference|Union|Intersection|SymmetricDifference|ExtractIf)\b")
UNORDERED = {"any", "all", "count", "sum", "min", "max", "len", "is_empty", "is_subset", "is_disjoint", "is_superset"}


def is_sort(c):
    return c is not None and c.name.startswith("sort")


def check(p, rep):
    nsites = 0
    nmaps = set()
    model = model_types(p)
    for fn in p.fns.values():
        for ty in fn.locals:
            if HASH.search(ty.s):
                nmaps.add(fn.path)
        sites = []
        for i, t, c in fn.calls():
            if c is None:
                continue
            recv = None
            a = t["a"][0] if t["a"] else None
            pl = (a.get("c") or a.get("m")) if a else None
            if pl is not None and not pl.get("p"):
                recv = fn.locals[pl["l"]]
            on_hash = recv is not None and recv.peel().k == "adt" and HASH.match(recv.peel().s) is not None
            res = fn.locals[t["p"]["l"]] if not t["p"].get("p") else None
            makes_iter = res is not None and HITER.search(res.s) is not None
            if (on_hash and c.name in ITER) or makes_iter or (
                    c.name in ("new_debug",) and any(HASH.search(x.s) for x in c.args)):
                sites.append((i, t, c))
            for q in ("RandomState", "hash_one", "BuildHasher"):
                if q in c.path and not (c.path.startswith("std::collections::hash")) and c.local is False:
                    rep.bad("seed/" + fn.path, t["s"], "%s computes a randomly seeded hash value" % fn.path)
        for i, b in fn.live_blocks():
            for s in b["st"]:
                r = s.get("r")
                if r and r["k"] == "cast" and "Unsize" in r["ck"]:
                    tgt = p.types[r["t"]]
                    if any(x.k == "dyn" and "Debug" in x.s for x in tgt.walk()):
                        o = r["o"]
                        pl = o.get("c") or o.get("m")
                        src = fn.locals[pl["l"]] if pl is not None and not pl.get("p") else None
                        # Debug output of the parts of a document counts as
                        # a result; that of the parser does not.
                        if src is not None and HASH.match(src.peel().s) and fn.self_adt in model:
                            rep.bad("debug/" + fn.path, s["s"], "%s prints a hash map in hash order" % fn.path)
        for i, t, c in sites:
            nsites += 1
            rep.ob("iteration/" + fn.path, loc(t["s"]))
            # Already inside an iterator chain that started elsewhere: one
            # verdict per function is enough.
            if ordered(p, fn, i) or unordered_use(p, fn):
                continue
            rep.bad("iteration/" + fn.path, t["s"],
                    "%s iterates a hash collection (%s) and does not sort what it gets on every path" % (fn.path, c.path))
    rep.count("iteration sites", nsites)
    rep.ob("hash collections", "%d functions handle hash collections" % len(nmaps))
    rep.floor("functions that handle hash collections", len(nmaps), 1)


def ordered(p, fn, start):
    """Every path from block `start` to a return passes a sort."""
    seen = set()
    todo = list(fn.succ(start))
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        t = fn.blocks[b]["t"]
        if t["k"] == "call" and is_sort(fn.callee(t)):
            continue
        if t["k"] == "return":
            return False
        todo.extend(fn.succ(b))
    return True


def unordered_use(p, fn):
    """The function returns a number or a truth value and calls only
    order-independent consumers on iterators."""
    ret = fn.locals[0]
    if ret.k not in ("bool", "uint", "int"):
        return False
    if any(t.k == "ref" and t.mut and not HITER.search(t.s) and "Iter" not in t.s for t in fn.locals[1:fn.argc + 1]):
        return False
    for i, t, c in fn.calls():
        if c is not None and c.name == "next":
            return False
        if c is not None and c.trait and "Iterator" in c.trait and c.name not in UNORDERED | {"map", "filter", "copied", "cloned", "into_iter"}:
            return False
    return True
