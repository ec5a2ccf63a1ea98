"""The function that makes a section is interpreted on all its paths. (1) Once
the nested blocks are parsed it uses nothing of the parser but the catalog.
(2) A returned section holds a number exactly if one was taken, one is taken
at most once, before the nested blocks, and exactly if numbering was found to
be on, the level was found to be within the limit and the section was found
not to be discrete. (3) The type of numbering is set before the number is
taken, and set back at the end, for level-1 sections that are not discrete and
only for those; it is what the section reports. (4) Nothing is taken or changed
if no section is returned. (5) Numbers are taken nowhere else, and a section
that was parsed is always returned. (6) The document's header is parsed, and
the limit on numbering levels read, before the first block."""

from checks.common import *
from checks.c12 import Field
from checks.c19 import flat_inputs, is_none
from engine.interp import *

TECH = "path-sensitive abstract interpretation of the section and document parsers, with field-effect summaries of what they call"
NOTE = ("All paths of the section parser, of its callers and of the document parser. The arithmetic of the number itself "
        "(which component is incremented) is not covered.")


def parser_fields(p, parser):
    """Fields of the parser that a function reads, and that it writes as a
    whole, including what it calls."""
    own = {}
    for fn in p.fns.values():
        r, w = set(), set()
        for bi, b in fn.live_blocks():
            items = [(s["p"], s.get("r", {})) for s in b["st"] if "p" in s]
            t = b["t"]
            if t["k"] == "call":
                items.append((t["p"], {"o": t["a"]}))
            elif t["k"] in ("switch", "assert"):
                items.append((None, {"o": [t.get("o"), t.get("c")]}))
            for pl, rv in items:
                for x in operand_places(rv):
                    e = field_elem(x, parser)
                    if e:
                        r.add(e[0])
                if pl is not None:
                    e = field_elem(pl, parser)
                    if e:
                        (w if e[1] else r).add(e[0])
        own[fn.path] = (r, w)
    return own


def field_elem(pl, parser):
    for i, e in enumerate(pl.get("p", [])):
        if isinstance(e, dict) and "f" in e and norm(e.get("adt", "")) == parser:
            return e.get("n"), i + 1 == len(pl["p"])
    return None


def leaf(path):
    if not path:
        return None
    return path[-1][1] if isinstance(path[-1], tuple) else path[-1]


class Section(Policy):
    """Property state: (nested blocks parsed, numbers taken, numbering on,
    within the limit, discrete, level 1, type written, parser changed)."""
    max_states = 4000

    def __init__(self, p, rep, own, takers, kids, parser):
        self.p, self.rep, self.own, self.takers, self.kids, self.parser = p, rep, own, takers, kids, parser
        self.reached = {}
        self.kinds = {}
        self.cats = {f["name"] for v in p.adts[parser]["variants"] for f in v["fields"]
                     if any(t.adt() == p.adt("Catalog") for t in p.types[f["ty"]].walk())}
        self.typef = {f["name"] for v in p.adts[parser]["variants"] for f in v["fields"]
                      if p.types[f["ty"]].adt() == p.adt("SectionType")}
        self.obs = {}

    def uses(self, path):
        if path not in self.reached:
            r, w = set(), set()
            for f in self.p.reach([path]):
                r |= self.own[f][0]
                w |= self.own[f][1]
            self.reached[path] = (r, w)
        return self.reached[path]

    def set(self, st, **kw):
        d = dict(st.ps)
        for k, v in kw.items():
            if k in ("on", "within", "discrete", "top") and k in d and d[k] != v:
                raise Infeasible()
            d[k] = v
        st.ps = frozenset(d.items())

    # --- tests ------------------------------------------------------------

    def branch(self, I, st, fr, bi, term, value):
        if isinstance(value, int) and not isinstance(value, bool) and term.op not in ("call", "bin"):
            if term in self.levels(I):
                self.set(st, top=value == 1)
            return
        if not isinstance(value, bool):
            return
        k = self.kind(I, term)
        if k is not None:
            name, pol = k
            self.set(st, **{name: value == pol})

    def levels(self, I):
        return getattr(self, "_levels", ())

    def kind(self, I, t):
        if t.op == "un" and t.a[0] == "Not":
            k = self.kind(I, t.a[1])
            return (k[0], not k[1]) if k else None
        if t.op == "call" and t.a[1]:
            n = t.a[0].split("::")[-1]
            cs = [x.a[1] for x in t.a[1] if x.op == "const"]
            if "sectnums" in cs and "Parser" in t.a[0]:
                return ("on", True)
            if n == "is_discrete":
                return ("discrete", True)
        if t.op == "bin":
            o, x, y = t.a[0], t.a[1], t.a[2]
            if self.limit(I, x):
                x, y = y, x
                o = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(o, o)
            if self.limit(I, y):
                if o == "Le":
                    return ("within", True)
                if o == "Gt":
                    return ("within", False)
                return None
            if cval(y) == 1 or cval(x) == 1:
                if o == "Eq":
                    return ("top", True)
                if o == "Ne":
                    return ("top", False)
        return None

    def limit(self, I, t):
        return t.op == "f" and t.a[2] == self.limit_field

    # --- effects ----------------------------------------------------------

    def statement(self, I, st, fr, bi, s):
        if "p" not in s:
            return
        d = dict(st.ps)
        r = set()
        for x in operand_places(s.get("r", {})):
            e = field_elem(x, self.parser)
            if e:
                r.add(e[0])
        if d.get("nested") and r - self.cats:
            self.rep.bad("late/%s" % "-".join(sorted(r - self.cats)), s["s"],
                         "%s is read after the nested blocks were parsed, which may have changed it" % ", ".join(sorted(r - self.cats)))
        e = field_elem(s["p"], self.parser)
        if e:
            self.set(st, changed=True)

    def assign(self, I, st, fr, bi, span, lv, term):
        root, path = lv
        if leaf(path) in self.typef and root is self.parg:
            self.typed(I, st, span, term)

    def typed(self, I, st, span, term):
        d = dict(st.ps)
        if d.get("nested"):
            self.set(st, after=term)
        else:
            if d.get("taken"):
                self.rep.bad("type-late", span, "the type of numbering is set after the number was taken")
            self.set(st, before=term)

    def call(self, I, st, c):
        if c.callee is None:
            return None
        fn = self.p.fns.get(c.path)
        takes = any(t is not None and t.peel().adt() == self.parser for t in c.types)
        mut = any(t is not None and t.k == "ref" and getattr(t, "mut", True) and t.peel().adt() == self.parser and t.s.startswith("&mut") for t in c.types)
        d = dict(st.ps)
        if c.path in self.takers:
            self.obs["taken"] = c.span
            if d.get("nested"):
                self.rep.bad("number-late", c.span, "the number is taken after the nested blocks were parsed")
            if d.get("taken"):
                self.rep.bad("number-twice", c.span, "one section takes two numbers")
            self.set(st, taken=True, changed=True)
            return None
        if fn is None or not takes:
            if fn is not None and any(x in self.kids for x in [c.path]):
                pass
            if not takes:
                return None
        if self.enter(I, c, fn, 0) and fn is not None:
            return None
        if c.path in self.kids:
            self.obs["nested"] = c.span
            if d.get("nested"):
                self.rep.bad("nested-twice", c.span, "nested blocks are parsed twice")
            self.set(st, nested=True, changed=True)
            return None
        if fn is not None:
            r, w = self.uses(c.path)
            if d.get("nested") and (r | w) - self.cats:
                self.rep.bad("late/%s" % c.callee.name, c.span, "%s uses %s after the nested blocks were parsed, which may have changed it" % (
                    c.callee.name, ", ".join(sorted((r | w) - self.cats))))
        if mut and not (fn is not None and not self.uses(c.path)[0] and not self.uses(c.path)[1]):
            self.set(st, changed=True)
        return None


def check(p, rep):
    parser = p.adt("Parser")
    sec = p.adt("SectionBlock")
    number = p.adt("SectionNumber")
    own = parser_fields(p, parser)
    sp = p.method("SectionBlock", "parse")
    bp = p.method("Block", "parse")
    takers = {f.path for f in p.fns.values() if f.kind == "fn" and f.argc and f.locals[0].adt() == number
              and any(f.locals[i + 1].s.startswith("&mut") and f.locals[i + 1].peel().adt() == parser for i in range(f.argc))}
    rep.floor("operations that take a number", len(takers), 1)
    kids = {c.path for f in [sp] + [p.fns[x] for x in p.reach([sp.path]) if x not in known_fns()] for _, _, c in f.calls()
            if c is not None and c.path in p.fns and bp.path in p.reach([c.path]) and c.path != sp.path and c.path in known_fns()}
    kids |= {bp.path}
    pol = Section(p, rep, own, takers, kids, parser)
    pol.parg = next((T("p", i + 1) for i in range(sp.argc) if sp.locals[i + 1].peel().adt() == parser), None)
    # The limit: the number-valued field that the document sets.
    pol.limit_field = "sectnumlevels"
    I = Interp(p, pol)
    n = 0
    for st, v in I.run(sp, frozenset()):
        d = dict(st.ps)
        for x in flat_inputs(I, v):
            if is_none(x):
                if d.get("taken"):
                    rep.bad("wasted", sp.span, "a number is taken although no section is returned")
                elif d.get("changed"):
                    rep.bad("effect", sp.span, "the parser is changed although no section is returned")
                rep.ob("none", loc(sp.span))
                continue
            n += 1
            key = "section/" + ",".join("%s=%s" % (k, d[k]) for k in ("on", "within", "discrete", "top") if k in d)
            rep.ob(key, loc(sp.span))
            s = I.deep(st, I.proj1(x, "item"))
            if s.op != "agg" or s.a[0] != sec:
                rep.bad("unknown", sp.span, "the section returned is not built here: %s" % show(s))
                continue
            f = dict(zip(s.a[2], s.a[3]))
            want = d.get("on") is True and d.get("within") is True and d.get("discrete") is False
            wont = d.get("on") is False or d.get("within") is False or d.get("discrete") is True
            taken = bool(d.get("taken"))
            if taken and not want:
                rep.bad("number/taken", sp.span, "a number is taken although it was not found that numbering is on, the level is within the limit and the section is not discrete (%s)" % key)
            if not taken and not wont:
                rep.bad("number/not-taken", sp.span, "no number is taken although nothing was found that rules it out (%s)" % key)
            nums = [y for y in flat_inputs(I, f.get("section_number", NONE))]
            if any(is_none(y) for y in nums) and taken:
                rep.bad("number/lost", sp.span, "the number that was taken is not kept")
            if any(not is_none(y) and not any(z.op == "call" and z.a[0] in takers for z in I.deepterms(y)) for y in nums):
                rep.bad("number/other", sp.span, "the section holds a number that was not taken from the parser")
            if not d.get("nested"):
                rep.bad("nested", sp.span, "a section can be returned without its nested blocks having been parsed")
            # (3)
            own_type = f.get("section_type")
            if d.get("top") is True and d.get("discrete") is False:
                b, a = d.get("before"), d.get("after")
                if b is None:
                    rep.bad("type/not-set", sp.span, "the type of numbering is not set for a level-1 section")
                elif own_type is not None and not same(I, b, own_type):
                    rep.bad("type/other", sp.span, "the type of numbering set (%s) is not that of the section (%s)" % (show(b), show(own_type)))
                if a is None or not (a.op == "agg" and a.a[1] == "Normal"):
                    rep.bad("type/not-restored", sp.span, "the type of numbering is not set back to normal at the end of a level-1 section")
            elif d.get("top") is False or d.get("discrete") is True:
                for w in ("before", "after"):
                    if w in d:
                        rep.bad("type/%s" % w, sp.span, "the type of numbering is changed by a section that is %s" % ("discrete" if d.get("discrete") else "not at level 1"))
                if d.get("discrete") is False and own_type is not None and not all(y.op == "f" and y.a[2] in pol.typef for y in I.phi_inputs(own_type)):
                    rep.bad("type/own", sp.span, "a section below level 1 does not have the type of the section it is in: %s" % show(own_type))
            else:
                if "before" in d or "after" in d:
                    rep.bad("type/untested", sp.span, "the type of numbering is changed without a test of the level and of being discrete")
    rep.floor("paths that return a section", n, 1)
    for k in ("taken", "nested"):
        if k not in pol.obs:
            rep.bad("no-" + k, sp.span, "the section parser never %s" % {"taken": "takes a number", "nested": "parses nested blocks"}[k])
        else:
            rep.ob("site/" + k, loc(pol.obs[k]))

    # (5)
    visited = I.visited_fns | {sp.path}
    for fn in p.fns.values():
        for bi, t, c in fn.calls():
            if c is not None and c.path in takers:
                rep.ob("taker/" + fn.path, loc(t["s"]))
                if fn.path not in visited:
                    rep.bad("taker/" + fn.path, t["s"], "%s takes a section number, but does not make a section" % fn.path)
    for fn in p.fns.values():
        if fn.path in visited or not any(c is not None and c.path == sp.path for _, _, c in fn.calls()):
            continue
        keep(p, rep, fn, sp)

    # (6)
    document(p, rep, parser, bp, pol.limit_field)


def same(I, a, b):
    return set(I.phi_inputs(a)) & set(I.phi_inputs(b)) != set() or I.idents(a) & I.idents(b) != set()


def keep(p, rep, fn, sp):
    """A parsed section is part of what is returned."""
    class K(Policy):
        max_states = 4000

        def branch(self, I, st, fr, bi, term, value):
            if term.op == "call" and term.a[0] == sp.path:
                st.ps = (value == "Some", term) if value == "Some" else st.ps

    I = Interp(p, K())
    for st, v in I.run(fn, (False, None)):
        if not st.ps[0]:
            continue
        rep.ob("kept/" + fn.path, loc(fn.span))
        if not any(y is st.ps[1] for y in I.deepterms(I.deep(st, v))):
            rep.bad("kept/" + fn.path, fn.span, "%s can parse a section and not return it; its number and ID stay taken" % fn.path)


def document(p, rep, parser, bp, limit):
    hp = p.method("Header", "parse")
    users = [fn for fn in p.fns.values() if any(c is not None and c.path == hp.path for _, _, c in fn.calls())]
    rep.floor("callers of the header parser", len(users), 1)
    for fn in users:
        class D(Policy):
            """Property state: (header parsed, limit read since)."""

            def assign(self, I, st, fr, bi, span, lv, term):
                root, path = lv
                if leaf(path) == limit:
                    ok = st.ps[0] and any(x.op == "call" and x.a[1] and any(y.op == "const" and y.a[1] == "sectnumlevels" for y in x.a[1]) for z in [term] for x in I.deepterms(z))
                    dep = ok or any(t.op == "call" and any(y.op == "const" and y.a[1] == "sectnumlevels" for y in t.a[1]) for f in st.facts for t in I.deepterms(f) if t.op == "call")
                    if not st.ps[0]:
                        rep.bad("limit-early", span, "the limit on numbering levels is set before the header was parsed")
                    elif not dep:
                        rep.bad("limit-other", span, "the limit on numbering levels is not set from the attribute")
                    st.ps = (st.ps[0], True)

            def call(self, I, st, c):
                if c.path == hp.path:
                    st.ps = (True, False)
                elif c.path in p.fns and not self.enter(I, c, p.fns[c.path], 0) and bp.path in p.reach([c.path]):
                    rep.ob("document/" + fn.path, loc(c.span))
                    if not st.ps[0]:
                        rep.bad("header-late", c.span, "blocks are parsed before the header")
                    elif not st.ps[1]:
                        rep.bad("limit-late", c.span, "blocks are parsed before the limit on numbering levels is set")
                return None

        Interp(p, D()).run(fn, (False, False))
