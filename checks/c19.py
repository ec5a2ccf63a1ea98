"""(1) Path analysis of every function that builds a block which has a title,
an anchor, a reference text or an attribute list: on each path each of these is
taken from the part of the preceding block metadata it is named after, and from
nothing else; a block built without metadata has none of them, and is built only
where the first character rules metadata out. (2) The generic block parser
passes the metadata on as parsed, or wholly cleared when no block follows.
(3) Each accessor returns only the part it is named after. (4) In the metadata
itself, an anchor has passed the name test, the reference text differs from it,
and the attribute list comes from attribute list parsing."""

from checks.common import *
from engine.interp import Interp, Policy, T, known_fns, subterms, show, NONE, OPTION

TECH = "path-sensitive abstract interpretation of MIR (provenance of fields)"
NOTE = ("Every construction site of every block type, every accessor and the hand-over in the generic block parser, on all "
        "paths. Which characters of a line make up a title or anchor is not judged.")

PARTS = ("title_source", "title", "anchor", "anchor_reftext", "attrlist")


def is_none(x):
    return x.op == "agg" and x.a[0] == OPTION and x.a[1] == "None"


def flat_inputs(I, t, seen=None):
    """Alternatives of a value, also inside Some(..)."""
    seen = seen if seen is not None else set()
    for x in I.phi_inputs(t):
        if x in seen:
            continue
        seen.add(x)
        if x.op == "agg" and x.a[0] == OPTION and x.a[1] == "Some":
            yield from flat_inputs(I, x.a[3][0], seen)
        else:
            yield x


def origin(I, x, base_ok):
    """Field names by which `x` depends on a metadata value, or None if it
    depends on something else than constants."""
    names = set()
    seen = set()
    todo = [x]
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == "f" and base_ok(y.a[0]):
            names.add(y.a[2])
            continue
        if y.op == "phi":
            todo.extend(I.phi_inputs(y))
            continue
        if y.op == "p":
            return None
        from engine.interp import flat
        todo.extend(flat(y.a))
    return names


class Builds(Policy):
    def __init__(self, p, adts, meta):
        self.p = p
        self.adts = adts
        self.meta = meta
        self.found = []

    def aggregate(self, I, st, fr, bi, span, term):
        if term.a[0] in self.adts:
            self.found.append((span, term, [I.deep(st, v) for v in term.a[3]], st))


def is_meta_term(p, I, meta):
    """Terms that stand for a whole BlockMetadata: a parameter of that type,
    or the item of a call that returns one."""
    def ok(t):
        if t.op == "p":
            return t in I.meta_params
        if t.op == "f":
            b = t.a[0]
            return t.a[2] == "item" and b.op == "call" and "BlockMetadata" in b.a[0]
        return False
    return ok


def callers_of(p, path):
    return [f for f, out in p.edges().items() if path in out]


def check(p, rep):
    meta = p.adt("BlockMetadata")
    mfields = {f["name"] for f in p.fields(meta)}
    for m in PARTS:
        if m not in mfields:
            raise FactsError("block metadata has no field " + m)
    wrapped = {p.types[v["fields"][0]["ty"]].adt() for v in p.adts[p.adt("Block")]["variants"]}

    # (3) accessors, and which field of each block they read
    field_of = {}
    nacc = 0
    for adt in sorted(wrapped):
        own = {f["name"] for f in p.fields(adt)}
        for m in PARTS:
            fn = find_method(p, adt, m, "IsBlock")
            if fn is None:
                rep.bad("accessor/%s::%s" % (adt, m), "-", "%s has no %s" % (adt, m))
                continue
            nacc += 1
            key = "accessor/%s::%s" % (p.last(adt), m)
            rep.ob(key, loc(fn.raw["span"]))
            I = Interp(p, Policy())
            self_ = T("p", 1)
            used = set()
            odd = None
            for st, v in I.run(fn):
                for x in flat_inputs(I, I.deep(st, v)):
                    if is_none(x):
                        continue
                    o = origin(I, x, lambda b: b is self_)
                    if o is None or len(o) != 1:
                        odd = x
                    else:
                        used |= o
            if odd is not None or len(used) > 1:
                rep.bad(key, fn.raw["span"], "%s returns %s, which is not one part of the block" % (fn.path, show(odd) if odd else sorted(used)))
            elif used:
                field_of[(adt, m)] = next(iter(used))
            elif m in own:
                rep.bad(key, fn.raw["span"], "%s never returns the block's %s" % (fn.path, m))
        fs = [field_of[(adt, m)] for m in PARTS if (adt, m) in field_of]
        if len(set(fs)) != len(fs):
            rep.bad("accessors/" + p.last(adt), "-", "two accessors of %s return the same part: %s" % (adt, fs))
    rep.floor("accessors", nacc, 1)
    holders = {adt for adt, m in field_of}
    rep.floor("kinds of block with metadata", len(holders), 6)

    # (1) construction sites
    direct = {}
    for fn in p.fns.values():
        if fn.derived or (fn.trait and p.last(fn.trait) == "Clone"):
            continue
        for i, b in fn.live_blocks():
            for s in b["st"]:
                r = s.get("r")
                if r and r["k"] == "agg" and r["ak"] == "adt" and norm(r["d"]) in holders:
                    direct.setdefault(fn.path, []).append(s["s"])
    roots = set()
    todo = [re.sub(r"(::\{closure#\d+\})+$", "", f) for f in direct]
    seen = set()
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        if f in known_fns() or not callers_of(p, f):
            roots.add(f)
        else:
            todo.extend(callers_of(p, f))
    nsite = 0
    without = set()
    for f in sorted(roots):
        fn = p.fns.get(f)
        if fn is None:
            continue
        c = Builds(p, holders, meta)
        I = Interp(p, c)
        I.meta_params = {T("p", i + 1) for i in range(fn.argc) if fn.locals[i + 1].adt() == meta}
        base = is_meta_term(p, I, meta)
        I.run(fn)
        sites = {}
        for span, term, vals, st in c.found:
            sites.setdefault((loc(span), term.a[0]), []).append(dict(zip(term.a[2], vals)))
        if not sites:
            rep.bad("site/" + f, fn.raw["span"], "no path of %s reaches the place where it builds a block" % f)
        for (where, adt), vs in sorted(sites.items()):
            nsite += 1
            for m in PARTS:
                if (adt, m) not in field_of:
                    continue
                fld = field_of[(adt, m)]
                key = "%s/%s/%s" % (f, p.last(adt), m)
                rep.ob(key, where)
                for v in vs:
                    for x in flat_inputs(I, v[fld]):
                        if not I.meta_params and not any(base(y) for y in subterms(x)):
                            if is_none(x):
                                without.add(f)
                                continue
                        o = origin(I, x, base)
                        if o != {m}:
                            rep.bad(key, where, "the %s of a %s is %s instead of the %s of the block metadata" % (
                                m, p.last(adt), show(x), m))
    rep.floor("construction sites", nsite, 1)

    # (1b), (2) the generic block parser
    bp = p.method("Block", "parse")

    class Hand(Policy):
        def __init__(self):
            self.calls = []

        def call(self, I, st, ctx):
            if ctx.callee is None:
                return None
            tgt = p.fns.get(ctx.path)
            if tgt is None:
                return None
            if ctx.path in without:
                self.calls.append(("fast", ctx, dict(st.facts), None))
            for i in range(tgt.argc):
                if i < len(ctx.args) and tgt.locals[i + 1].adt() == meta and ctx.path in known_fns():
                    self.calls.append(("meta", ctx, None, ctx.args[i]))
            return None

    h = Hand()
    I = Interp(p, h)
    I.meta_params = set()
    I.run(bp)
    base = is_meta_term(p, I, meta)
    nmeta = nfast = 0
    for kind, ctx, facts, a in h.calls:
        if kind == "fast":
            nfast += 1
            key = "fast/%s" % ctx.path
            rep.ob(key, loc(ctx.span))
            excl = set()
            for t, v in facts.items():
                if isinstance(v, tuple) and v[0] == "notint":
                    excl |= {chr(n) for n in v[1] if isinstance(n, int)}
                if v is False and t.op == "bin" and t.a[0] == "Eq":
                    for y in t.a[1:]:
                        if y.op == "const" and isinstance(y.a[1], (str, int)) and not isinstance(y.a[1], bool):
                            excl.add(y.a[1] if isinstance(y.a[1], str) else chr(y.a[1]))
                if v is False and t.op == "call" and t.a[0].endswith("starts_with"):
                    for y in t.a[1]:
                        if y.op == "const" and isinstance(y.a[1], str) and y.a[1]:
                            excl.add(y.a[1][0])
            for ch in ".[":
                if ch not in excl:
                    rep.bad(key, ctx.span, "a block is parsed without metadata although the text may start with '%s'" % ch)
            continue
        if not ctx.path.split("::")[-1].startswith("parse"):
            continue
        nmeta += 1
        key = "handover/%s" % ctx.path
        rep.ob(key, loc(ctx.span))
        for x in I.phi_inputs(a):
            if base(x):
                continue
            vals = {m: list(flat_inputs(I, I.project(x, (m,)))) for m in PARTS}
            kept = all(all(origin(I, y, base) == {m} for y in vals[m]) for m in PARTS)
            cleared = all(all(is_none(y) for y in vals[m]) for m in PARTS)
            if cleared:
                # Then the lines of the metadata have to become content.
                bs = list(flat_inputs(I, I.project(x, ("block_start",))))
                if all(origin(I, y, base) == {"source"} for y in bs):
                    continue
                rep.bad(key, ctx.span, "the metadata is cleared, but its lines do not become part of the block")
                continue
            if not kept:
                mixed = {m: [show(y) for y in vals[m]] for m in PARTS}
                rep.bad(key, ctx.span, "the block metadata is changed before %s gets it: %s" % (ctx.path, mixed))
    rep.floor("hand-overs of metadata", nmeta, 1)

    # (4) the metadata itself
    mp = p.method("BlockMetadata", "parse")

    class Meta(Policy):
        def __init__(self):
            self.found = []
            self.tested = set()

        def aggregate(self, I, st, fr, bi, span, term):
            if term.a[0] == meta:
                self.found.append((span, dict(zip(term.a[2], [I.deep(st, v) for v in term.a[3]]))))

        def branch(self, I, st, fr, bi, term, value):
            if value is True and term.op == "call" and "xml_name" in term.a[0]:
                self.tested |= I.idents(term.a[1][0])

    c = Meta()
    I = Interp(p, c)
    I.run(mp)
    if not c.found:
        rep.bad("metadata", mp.raw["span"], "BlockMetadata::parse does not build block metadata")
    where = loc(mp.raw["span"])
    got = {m: set() for m in PARTS}
    for span, v in c.found:
        for m in PARTS:
            got[m] |= {x for x in flat_inputs(I, v[m]) if not is_none(x)}
    ids = {m: set().union(*[I.idents(x) for x in got[m]]) if got[m] else set() for m in PARTS}
    for m in PARTS:
        rep.ob("metadata/" + m, where)
        if not got[m]:
            rep.bad("metadata/" + m, where, "the %s of the metadata is never stored" % m)
    for x in got["anchor"]:
        if not I.idents(x) <= c.tested:
            rep.bad("metadata/anchor", where, "%s becomes the anchor without having passed the name test" % show(x))
    if ids["anchor_reftext"] & (ids["anchor"] | c.tested):
        rep.bad("metadata/anchor_reftext", where, "the reference text is the anchor itself")
    for x in got["attrlist"]:
        if not any(y.op == "call" and "attrlist" in y.a[0].lower() for y in I.deepterms(x)):
            rep.bad("metadata/attrlist", where, "the attribute list does not come from attribute list parsing: %s" % show(x))
    if ids["title_source"] & (ids["anchor"] | ids["anchor_reftext"]):
        rep.bad("metadata/title_source", where, "the title source is another part of the metadata")


def find_method(p, adt, name, trait):
    for fn in p.by_name.get(name, []):
        if fn.trait and p.last(fn.trait) == trait and fn.self_adt == adt:
            return fn
    for fn in p.by_name.get(name, []):
        if fn.in_trait and p.last(fn.in_trait) == trait:
            return fn
    return None
