"""Path analysis of the parsers of blocks: (1) on every path on which the
generic block parser returns a block of its own making (any kind that can have
metadata, other than a section), it has asked that same block for its ID and
either registered the ID in the catalog, or found that the block has none or
that there is no catalog; (2) on every path on which a section is returned, the
ID it will report was registered: its anchor if it has one, else the ID of its
attribute list, else the generated ID that is stored in it, and a generated ID
is stored only if it came from the catalog; (3) every implementation of the ID
query reports the anchor first, the attribute list's ID second, and, for
sections only, the stored ID last."""

from checks.common import *
from checks.c19 import flat_inputs, is_none
from engine.interp import Interp, Policy, T, known_fns, subterms, show, NONE, OPTION

TECH = "path-sensitive abstract interpretation of MIR (must-call before return)"
NOTE = ("All paths of the generic block parser and of the section parser, and all implementations of the ID query. "
        "IDs of inline anchors are not covered: they are not blocks.")


def parts(I, v, name):
    for x in I.phi_inputs(v):
        yield from flat_inputs(I, I.proj1(x, name))


class Track(Policy):
    """Property state: the outcome of tests on options that matter, and
    registrations."""

    def __init__(self, p, want, reg):
        self.p = p
        self.want = want
        self.reg = reg
        self.regs = []
        self.asked = {}

    def branch(self, I, st, fr, bi, term, value):
        w = self.want(I, st, term)
        if w is not None and value in ("None", "Some"):
            st.ps = st.ps | {(w, value)}
            # What a test says about an earlier test of the same thing.
            for x in st.ps:
                if x[0] == w and x[1] != value and len(x) == 2:
                    from engine.interp import Infeasible
                    raise Infeasible()

    def call(self, I, st, ctx):
        r = self.reg.get(ctx.path)
        if r is not None:
            st.ps = st.ps | {(r, tuple(sorted(map(repr, I.idents(ctx.args[1])))))}
            self.regs.append((r, ctx, ctx.args[1], st.ps))
        return None


def catalog_test(p):
    cat = p.adt("Catalog")
    got = {f.path for f in p.fns.values() if f.kind == "fn" and f.locals and f.self_adt == p.adt("Parser")
           and any(t.adt() == cat for t in f.locals[0].walk())}
    return got


def check(p, rep):
    reg = p.method("Catalog", "register_ref")
    gen = p.method("Catalog", "generate_and_register_unique_id")
    cats = catalog_test(p)
    block = p.adt("Block")
    attribute = p.adt("Attribute")
    section = p.adt("SectionBlock")

    # Kinds of block the generic parser builds itself.
    kinds = {}
    for v in p.adts[block]["variants"]:
        kinds[v["name"]] = p.types[v["fields"][0]["ty"]].adt()

    # (1)
    bp = p.method("Block", "parse")

    def is_id_call(x):
        return x.op == "call" and x.a[0].split("::")[-1] == "id" and ("IsBlock" in x.a[0] or "Block" in x.a[0])

    def want(I, st, term):
        if is_id_call(term):
            return ("id", frozenset(I.idents(term.a[1][0])))
        if term.op == "call" and term.a[0] in cats:
            return "catalog"
        return None

    class One(Track):
        into = {f.path for f in p.fns.values() if f.kind == "fn" and f.self_adt == block and not f.trait and f.path != bp.path}

        def call(self, I, st, ctx):
            r = self.reg.get(ctx.path)
            if r is not None:
                ids = [x for x in I.deepterms(ctx.args[1]) if is_id_call(x)]
                if not ids:
                    rep.bad("block/registered-id", ctx.span, "%s is registered, which is not the ID of a block" % show(ctx.args[1]))
                for x in ids:
                    st.ps = st.ps | {("reg", frozenset(I.idents(x.a[1][0])))}
            return None

    c = One(p, want, {reg.path: "reg", gen.path: "gen"})
    I = Interp(p, c)
    mine = {}
    for st, v in I.run(bp, ps=frozenset()):
        for x in parts(I, v, "item"):
            if is_none(x):
                continue
            for b in parts(I, x, "item"):
                b = I.deep(st, b)
                if b.op != "agg" or b.a[0] != block:
                    rep.bad("block/unknown", bp.raw["span"], "the kind of the returned block %s is not known" % show(b))
                    continue
                mine.setdefault(b.a[1], []).append((st, b))
    n = 0
    for k, adt in sorted(kinds.items()):
        if adt == attribute or adt == section or k not in mine:
            continue
        for st, b in mine[k]:
            n += 1
            key = "block/%s" % k
            rep.ob(key, loc(bp.raw["span"]))
            same = frozenset(I.idents(b)) | frozenset(I.idents(b.a[3][0]))
            ok = False
            for f in st.ps:
                if f == ("catalog", "None"):
                    ok = True
                if f[0] == "reg" and f[1] & same:
                    ok = True
                if isinstance(f[0], tuple) and f[0][0] == "id" and f[0][1] & same and f[1] == "None":
                    ok = True
            if not ok:
                rep.bad(key, bp.raw["span"], "a %s block can be returned without its ID having been registered" % k)
    rep.floor("paths that return a block", n, 1)
    rep.floor("kinds of block", len([k for k in mine if kinds[k] not in (attribute, section)]), 5)
    for k in mine:
        if kinds[k] == section:
            for st, b in mine[k]:
                rep.ob("block/Section", loc(bp.raw["span"]))
                if not any("SectionBlock" in str(i) for i in I.idents(b.a[3][0])):
                    rep.bad("block/Section", bp.raw["span"], "a section block does not come from the section parser: %s" % show(b))

    # (2)
    sp = p.method("SectionBlock", "parse")
    meta = p.adt("BlockMetadata")
    metas = {T("p", i + 1) for i in range(sp.argc) if sp.locals[i + 1].adt() == meta}

    def swant(I, st, term):
        if term.op == "f" and term.a[0] in metas and term.a[2] in ("anchor", "attrlist"):
            return term.a[2]
        if term.op == "call" and term.a[0].split("::")[-1] == "id" and "Attrlist" in term.a[0]:
            return "listid"
        if term.op == "call" and term.a[0] in cats:
            return "catalog"
        return None

    def source(I, x):
        """Where an ID comes from: the anchor, the attribute list, or else."""
        fs = set()
        for y in I.deepterms(x):
            if y.op == "f" and y.a[0] in metas:
                fs.add(y.a[2])
        return fs

    class Two(Track):
        def call(self, I, st, ctx):
            r = self.reg.get(ctx.path)
            if r is not None:
                st.ps = st.ps | {(r, ctx.span["l"])}
                self.regs.append((r, ctx, ctx.args[1], st.ps))
            return None

    c = Two(p, swant, {reg.path: "reg", gen.path: "gen"})
    I = Interp(p, c)
    rets = I.run(sp, ps=frozenset())
    for kind, ctx, ident, ps in c.regs:
        if kind != "reg":
            continue
        key = "section/registered"
        rep.ob(key, loc(ctx.span))
        for x in flat_inputs(I, ident):
            s = source(I, x)
            if s == {"anchor"}:
                continue
            if s == {"attrlist"} and ("anchor", "None") in ps:
                continue
            rep.bad(key, ctx.span, "a section that %s an anchor is registered as %s" % (
                "has no" if ("anchor", "None") in ps else "may have", show(x)))
    n = 0
    for st, v in rets:
        for x in flat_inputs(I, v):
            if is_none(x):
                continue
            n += 1
            sec = I.deep(st, I.proj1(x, "item"))
            key = "section/returned"
            rep.ob(key, loc(sp.raw["span"]))
            if sec.op != "agg" or sec.a[0] != section:
                rep.bad(key, sp.raw["span"], "the section returned is not built here: %s" % show(sec))
                continue
            ps = st.ps
            if ("catalog", "None") in ps:
                continue
            manual_none = ("anchor", "None") in ps and (("attrlist", "None") in ps or ("listid", "None") in ps)
            if manual_none:
                for y in flat_inputs(I, dict(zip(sec.a[2], sec.a[3]))["section_id"] if "section_id" in sec.a[2] else NONE):
                    if is_none(y):
                        continue
                    if not any(z.op == "call" and z.a[0] == gen.path for z in I.deepterms(y)):
                        rep.bad(key, sp.raw["span"], "the section stores the ID %s, which does not come from the catalog" % show(y))
                if any(r[0] == "gen" for r in ps):
                    ys = list(flat_inputs(I, dict(zip(sec.a[2], sec.a[3])).get("section_id", NONE)))
                    if any(is_none(y) for y in ys):
                        rep.bad(key, sp.raw["span"], "an ID is generated and registered for the section but not stored in it")
            else:
                if not any(r[0] == "reg" for r in ps):
                    rep.bad(key, sp.raw["span"], "a section with an ID of its own can be returned without registering it (%s)" % sorted(map(str, ps)))
    rep.floor("paths that return a section", n, 1)

    # (3)
    ids = [f for f in p.by_name.get("id", []) if (f.trait and p.last(f.trait) == "IsBlock") or (f.in_trait and p.last(f.in_trait) == "IsBlock")]
    rep.floor("implementations of the ID query", len(ids), 1)
    for fn in ids:
        key = "id/" + fn.path
        rep.ob(key, loc(fn.raw["span"]))
        self_ = T("p", 1)

        def kind_of(I, t):
            if t.op == "call" and t.a[0].split("::")[-1] == "anchor":
                return "anchor"
            if t.op == "call" and t.a[0].split("::")[-1] == "attrlist":
                return "attrlist"
            if t.op == "call" and t.a[0].split("::")[-1] == "id" and "Attrlist" in t.a[0]:
                return "listid"
            if t.op == "f" and t.a[0] is self_:
                return t.a[2]
            return None

        c = Track(p, lambda I, st, t: kind_of(I, t), {})
        I = Interp(p, c)
        ok_dispatch = fn.self_adt == block
        for st, v in I.run(fn, ps=frozenset()):
            ps = st.ps
            for x in flat_inputs(I, v):
                from_ = {kind_of(I, y) for y in I.deepterms(x)} - {None}
                if ok_dispatch and ("anchor", "Some") not in ps and ("anchor", "None") not in ps:
                    continue        # a dispatch to the wrapped block: C20
                if ("anchor", "Some") in ps:
                    if from_ != {"anchor"}:
                        rep.bad(key, fn.raw["span"], "a block with an anchor reports %s as its ID" % show(x))
                elif ("listid", "Some") in ps:
                    if not from_ or not from_ <= {"listid", "attrlist"}:
                        rep.bad(key, fn.raw["span"], "a block with an ID in its attribute list reports %s" % show(x))
                elif ("anchor", "None") in ps and (("attrlist", "None") in ps or ("listid", "None") in ps):
                    if not is_none(x) and from_ - {"attrlist", "listid", "anchor"} and fn.self_adt != section:
                        rep.bad(key, fn.raw["span"], "a block without an ID reports %s" % show(x))
                elif not is_none(x) or True:
                    if from_ and not from_ <= {"attrlist", "listid"} or ("anchor", "None") not in ps:
                        rep.bad(key, fn.raw["span"], "%s is reported without looking at the anchor and attribute list first" % show(x))
