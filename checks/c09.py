"""Every function in the crate that can change the parser's table of attribute
values is found by the types of its accesses. Those that do not get the
caller's restriction are assignments by a document; each is interpreted path by
path: (1) it only inserts, and inserts only where the table was found to have
no such attribute or one whose restriction permits an assignment at every place
that it is called from (the header, the body: by reachability from the parsers
of those parts); (2) where the restriction permits the assignment, it does
insert; (3) what it inserts as value is the value it was given (or the default,
for a bare name); (4) an attribute entry that is refused pushes a warning.
(5) The preprocessor calls the header's writer only on paths where its state
says that the header goes on, and the body's where it does not; that state
starts as true, and becomes false at an empty line and never otherwise."""

from checks.attrs import *

TECH = "effect analysis and call-graph reachability; path-sensitive abstract interpretation of MIR (permission before write)"
NOTE = "All functions with mutable access to the table of attribute values and all their callers, on all paths."


def check(p, rep):
    A = Attrs(p)
    allctx = frozenset(p.variants(A.ctx))
    roots = A.roots()
    docs = [r for r in roots if not A.is_api(p.fns[r])]
    rep.floor("operations that assign attributes", len(roots), 1)
    rep.floor("assignments by documents", len(docs), 1)
    pre = {}
    n = 0
    for r in docs:
        fn = p.fns[r]
        short = p.last(r)
        places = A.places(r)
        kinds = set()
        for k, caller, where in places:
            n += 1
            rep.ob("place/%s/%s" % (short, caller), where)
            if k == "preprocessor":
                pre.setdefault(caller, set()).add(r)
            elif k == "?":
                rep.bad("place/%s/%s" % (short, caller), where, "%s assigns an attribute, but is part of the parsing of neither header nor body" % caller)
            else:
                kinds.add(k)
        if not kinds:
            rep.bad("place/" + short, fn.span, "%s assigns an attribute, but nothing in the parsing of header or body calls it" % r)
            continue
        ok = frozenset.intersection(*[ALLOWED[k] for k in kinds])
        c, I, rets = analyse(A, r)
        entry = any("Warning" in l.s and l.k == "ref" and l.mut for l in fn.locals[1:fn.argc + 1])
        for w in c.writes:
            key = "write/" + short
            rep.ob(key, loc(w.span))
            if w.op != "insert":
                rep.bad(key, w.span, "%s changes the table of attributes by %s" % (r, w.op))
                continue
            if "Some" in w.present and not w.allowed <= ok:
                rep.bad(key, w.span, "%s, used in the %s, assigns an attribute that is restricted to %s" % (
                    r, " and ".join(sorted(kinds)), ", ".join(sorted(w.allowed - ok))))
            bad = value_from(A, I, fn, w)
            rep.ob("value/" + short, loc(w.span))
            if bad:
                rep.bad("value/" + short, w.span, "%s stores %s, not the value it was given" % (r, bad))
        for st, v in rets:
            wrote = [f for f in st.ps if isinstance(f, tuple)]
            pres, ctxs = final(c, I, st, A)
            rep.ob("paths/" + short, loc(fn.span))
            if not wrote:
                if "None" in pres:
                    rep.bad("omitted/" + short, fn.span, "%s has a path that does not assign an attribute that does not exist yet" % r)
                elif ctxs & ok:
                    rep.bad("omitted/" + short, fn.span, "%s has a path that does not assign although the restriction %s permits it in the %s" % (
                        r, ", ".join(sorted(ctxs & ok)), " and ".join(sorted(kinds))))
                if entry and "warned" not in st.ps:
                    rep.bad("silent/" + short, fn.span, "%s has a path that refuses an attribute entry without a warning" % r)
            elif "warned" in st.ps:
                rep.bad("silent/" + short, fn.span, "%s has a path that assigns and warns that it did not" % r)
    rep.floor("calls of the assignments", n, 1)
    preprocessor(p, rep, A, pre)


def value_from(A, I, fn, w):
    """The stored value must derive from an argument, or be the default of
    the attribute where the argument is a bare name."""
    vals = []
    for x in I.phi_inputs(w.val):
        if x.op == "agg":
            i = [f["name"] for f in A.p.fields(A.val)].index("value")
            vals += list(I.phi_inputs(x.a[3][i]))
        else:
            return show(x)
    for v in vals:
        ts = list(I.deepterms(v))
        if v.op == "agg" and v.a[1] == "Value":
            src = v.a[3][0]
            if any(x.op == "p" and x.a[0] != 1 for x in I.deepterms(src)):
                continue
            return show(src)
        if v.op == "agg":
            # a bare variant is what was given where the path knows so
            if any(known == frozenset([v.a[1]]) and any(y.op == "p" and y.a[0] != 1 for y in I.deepterms(t))
                   for t, known in w.facts.items()):
                continue
            return show(v) + " (a constant)"
        if not any(x.op == "p" and x.a[0] != 1 for x in ts):
            return show(v)
    return None


def final(c, I, st, A):
    """What a returning path knows of the attribute (any key)."""
    pres = frozenset(["Some", "None"])
    ctxs = frozenset(A.p.variants(A.ctx))
    for t, v in st.facts.items():
        if not isinstance(v, frozenset):
            continue
        for x in I.phi_inputs(t):
            if x.op == "call" and x.a[0] == "lookup":
                pres = pres & v
            elif x.op == "f" and x.a[0].op == "f" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0] == "lookup" and v <= ctxs:
                ctxs = ctxs & v
    return pres, ctxs


def empty_line(I, term):
    """Whether this asks if a line (from take_line) is empty."""
    def line(x, d=0):
        if x.op == "call" and len(x.a[1]) == 1 and d < 4:
            return all(line(y, d + 1) for y in I.phi_inputs(x.a[1][0]))
        return x.op == "f" and x.a[2] == "item" and all(
            y.op == "call" and y.a[0].split("::")[-1].startswith("take_") for y in I.phi_inputs(x.a[0]))

    return all(x.op == "call" and x.a[0].split("::")[-1] == "is_empty" and line(x) for x in I.phi_inputs(term))


def marks_title(x):
    """Whether a title's marker occurs in this."""
    if isinstance(x, dict):
        return isinstance(x.get("v"), str) and x["v"].strip() == "=" or any(marks_title(y) for y in x.values())
    return isinstance(x, list) and any(marks_title(y) for y in x)


def preprocessor(p, rep, A, pre):
    if not pre:
        rep.bad("preprocessor", "-", "the preprocessor does not track attribute values: no call of an assignment was found in it")
        return
    for root in roots_of(p, set(pre)):
        fn = p.fns[root]
        owner = fn.self_adt
        if owner is None:
            raise FactsError("%s: the preprocessor's state is not its receiver" % root)
        flags = {f["name"] for f in p.fields(owner) if p.types[f["ty"]].s == "bool"}
        if not flags:
            raise FactsError("the preprocessor's state has no flag")
        docs = {r for rs in pre.values() for r in rs}
        calls, clears, lost, taken = [], [], [], []

        def flag(I, t):
            fs = {x.a[2] for x in I.phi_inputs(t) if x.op == "f" and x.a[2] in flags}
            fs |= {x.a[0][1:] for x in I.phi_inputs(t) if x.op == "call" and x.a[0][0] == "@"}
            return fs.pop() if len(fs) == 1 else None

        class Pre(Policy):
            into = {f.path for f in p.fns.values() if f.self_adt == owner and f.path != root}

            def __init__(self):
                self.base = {}

            def enter(self, I, ctx, f2, depth):
                return depth < 3 and f2.self_adt == owner and f2.path != root

            def branch(self, I, st, fr, bi, term, value):
                f = flag(I, term)
                if f is not None and isinstance(value, bool):
                    st.ps = frozenset(x for x in st.ps if x[:2] != ("is", f)) | {("is", f, value)}
                if isinstance(value, bool) and empty_line(I, term):
                    st.ps = frozenset(x for x in st.ps if x[0] != "empty") | ({("empty", True)} if value else frozenset())
                    for x in list(st.ps):
                        if x[0] == "unless-empty":
                            st.ps = (st.ps - {x}) | {("is", x[1], not value)}

            def assign(self, I, st, fr, bi, span, place, v):
                root_, path = place
                names = [e[1] if isinstance(e, tuple) else e for e in path]
                for f in flags:
                    if path and f in (path[-1] if isinstance(path[-1], tuple) else (path[-1],)):
                        if ("is", f, True) in st.ps and all(
                                x.op == "un" and x.a[0] in ("Not", "not") and empty_line(I, x.a[1]) for x in I.phi_inputs(v)):
                            # stays set unless the line is empty
                            clears.append((f, {False}, st.ps | {("empty", True)}, span))
                            st.ps = frozenset(x for x in st.ps if x[:2] != ("is", f)) | {("unless-empty", f)}
                            own = T("call", "@" + f, ())
                            I.write(st, root_, path, own)
                            st.facts.pop(own, None)
                            continue
                        vs = {x.a[1] if x.op == "const" else None for x in I.phi_inputs(v)}
                        if len(vs) == 1 and ("is", f, next(iter(vs))) in st.ps:
                            continue    # stays as it is
                        clears.append((f, vs, st.ps, span))
                        st.ps = frozenset(x for x in st.ps if x[:2] != ("is", f))
                        if len(vs) == 1 and None not in vs:
                            st.ps = st.ps | {("is", f, next(iter(vs)))}

            def call(self, I, st, ctx):
                if ctx.path in docs:
                    calls.append((ctx.path, st.ps, ctx.span))
                if ctx.path == root or ctx.path.endswith("take_line"):
                    lost.append((st.ps, ctx.span))
                    if ctx.path == root:
                        st.ps = frozenset(x for x in st.ps if x[0] not in ("is", "unless-empty"))
                    st.ps = frozenset(x for x in st.ps if x[0] not in ("empty", "unless-empty"))
                for a, t in zip(ctx.raw, ctx.types):
                    if t is not None and t.k == "ref" and t.mut and t.peel().s == "bool":
                        if all(x.op == "ref" and not x.a[1] for x in I.phi_inputs(a)):
                            continue    # a variable
                        taken.append((ctx.path, ctx.span))
                return None

            def flagkey(self, I, st, fr):
                return [st.ps]

        c = Pre()
        I = Interp(p, c)
        rets = I.run(fn, ps=frozenset())
        lost += [(st.ps, fn.span) for st, v in rets]
        want = {}
        for r in docs:
            ks = {k for k, _, _ in A.places(r)} - {"preprocessor", "?"}
            want[r] = ks
        names = set(flags)
        for r, ps, span in calls:
            rep.ob("preprocessor/" + p.last(r), loc(span))
            val = True if want[r] == {"header"} else False if want[r] == {"body"} else None
            names &= {x[1] for x in ps if x[0] == "is" and x[2] is val}
        if not calls:
            raise FactsError("no assignment seen in " + root)
        if not names:
            rep.bad("preprocessor/place", fn.span, "%s: no flag tells where the header's and where the body's assignment applies: the one is not called only while the header goes on, or the other not only after it" % root)
            return
        f = sorted(names)[0] if len(names) == 1 else sorted(x for x in names)[0]
        # the flag's history
        inits = 0
        for f2 in p.fns.values():
            if f2.derived:
                continue
            for bi, b in f2.live_blocks():
                for s in b["st"]:
                    r = s.get("r")
                    if r and r["k"] == "agg" and norm(r.get("d", "")) == owner:
                        inits += 1
                        i = r["fn"].index(f)
                        o = r["o"][i]
                        rep.ob("preprocessor/start", loc(s["s"]))
                        if not ("k" in o and o["k"].get("v") is True):
                            rep.bad("preprocessor/start", s["s"], "%s does not start in the header (%s)" % (f2.path, f))
        rep.floor("constructions of the preprocessor's state", inits, 1)
        seen = 0
        for g, vs, ps, span in clears:
            if g != f:
                continue
            seen += 1
            rep.ob("preprocessor/header-end", loc(span))
            if vs != {False}:
                rep.bad("preprocessor/header-end", span, "%s is set to something other than false" % f)
            elif ("empty", True) not in ps:
                rep.bad("preprocessor/header-end", span, "the header ends (%s becomes false) where the line is not known to be empty" % f)
        if not seen:
            rep.bad("preprocessor/header-end", fn.span, "%s is never set to false" % f)
        # The header goes on over empty lines that precede its title.
        title = any(f2.span["f"] == fn.span["f"] and marks_title(f2.blocks) for f2 in p.fns.values())
        rep.ob("preprocessor/before-title", loc(fn.span))
        if not title:
            rep.bad("preprocessor/before-title", fn.span, "%s ends the header at an empty line without having looked for the title: "
                    "the document's header goes on until after it" % p.last(owner))
        for g, span in taken:
            rep.bad("preprocessor/header-end", span, "a flag of the preprocessor is changed by " + g)
        for ps, span in lost:
            rep.ob("preprocessor/lines", loc(span))
            if ("empty", True) in ps and ("is", f, False) not in ps:
                rep.bad("preprocessor/header-end", span, "a path handles an empty line without ending the header (%s)" % f)
