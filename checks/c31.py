"""Typestate analysis of passthroughs, on all paths: (1) wherever passthroughs
are extracted from a content, no substitution was applied to it before, they
are restored to that same content exactly once before the function returns, and
no substitution is applied afterwards; where the list of steps is found to
contain macros, they are extracted before the first step. (2) Restoring
replaces every placeholder (unless nothing was extracted) and stores the
result. (3) Extracting adds the passthrough to the list exactly once and writes
exactly one placeholder, which holds its index in the list. (4) Replacing a
placeholder by a passthrough of the list applies that passthrough's own
substitutions to that passthrough's own text exactly once and writes the
result."""

from checks.common import *
from checks.c13 import roots_of
from engine.interp import Interp, Policy, T, known_fns, subterms, show

TECH = "typestate analysis by path-sensitive abstract interpretation of MIR"
NOTE = "All callers of extraction, the restoration and placeholder code, on all paths. What counts as a passthrough is not judged."


def names_of(I, t):
    return frozenset(map(str, I.idents(t)))


def content_base(I, t):
    """The content a value stands for, however often it was changed."""
    out = set()
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            todo.extend(I.phi_inputs(x))
        elif x.op == "mut":
            todo.append(x.a[2][x.a[1]])
        elif x.op == "over":
            todo.append(x.a[0])
        else:
            out.add(x)
    return frozenset(out)


def check(p, rep):
    pts = p.adt("Passthroughs")
    one = p.adt("Passthrough")
    content = p.adt("Content")
    gapply = p.method("SubstitutionGroup", "apply")
    sapply = p.method("SubstitutionStep", "apply")

    def carg(fn):
        return [i for i in range(1, fn.argc + 1) if fn.locals[i].adt() == content and fn.locals[i].k == "ref" and fn.locals[i].mut]

    known = known_fns()
    fns = [f for f in p.fns.values() if f.kind == "fn" and not f.derived and not f.trait and f.path in known]
    extract = [f for f in fns if carg(f) and f.locals[0].adt() == pts]
    restore = [f for f in fns if carg(f) and f.self_adt == pts and f.argc >= 1 and f.locals[1].adt() == pts and f.locals[0].adt() != pts]
    push = [f for f in fns if f.self_adt == pts and f.argc == 3 and f.locals[2].adt() == one]
    if len(extract) != 1 or len(restore) != 1 or len(push) != 1:
        raise FactsError("extraction, restoration and adding of passthroughs: found %s, %s, %s" % (extract, restore, push))
    extract, restore, push = extract[0], restore[0], push[0]

    # (1)
    class Life(Policy):
        def __init__(self):
            self.n = 0

        def after(self, I, st, ctx, value):
            key = "extract/%s" % ctx.fr.stack[0]
            if ctx.path == extract.path:
                self.n += 1
                rep.ob(key, loc(ctx.span))
                c = content_base(I, ctx.args[carg(extract)[0] - 1])
                if any(f[0] == "subst" and f[1] & c for f in st.ps):
                    rep.bad(key, ctx.span, "passthroughs are extracted after substitutions were applied")
                if any(f[0] == "held" and f[1] & c for f in st.ps):
                    rep.bad(key, ctx.span, "passthroughs are extracted again before the first ones are restored")
                st.ps = st.ps | {("held", c, names_of(I, value))}
            elif ctx.path == restore.path:
                rep.ob(key, loc(ctx.span))
                c = content_base(I, ctx.args[carg(restore)[0] - 1])
                who = names_of(I, ctx.args[0])
                held = [f for f in st.ps if f[0] == "held" and f[1] & c and f[2] & who]
                if not held:
                    rep.bad(key, ctx.span, "%s is restored to %s, from which it was not extracted" % (show(ctx.args[0]), sorted(map(show, c))))
                st.ps = frozenset(f for f in st.ps if f not in held) | {("restored", c)}
            elif ctx.path in (gapply.path, sapply.path):
                a = carg(p.fns[ctx.path])
                c = content_base(I, ctx.args[a[0] - 1])
                if any(f[0] == "restored" and f[1] & c for f in st.ps):
                    rep.bad(key, ctx.span, "a substitution is applied after the passthroughs have been restored")
                if ("needed",) in st.ps and not any(f[0] == "held" for f in st.ps):
                    rep.bad(key, ctx.span, "macros are applied to a content whose passthroughs have not been extracted")
                st.ps = st.ps | {("subst", c)}

        def branch(self, I, st, fr, bi, term, value):
            if value is True and term.op == "call" and term.a[0].split("::")[-1] == "contains":
                if any(y.op == "agg" and y.a[1] == "Macros" for y in subterms(term)):
                    st.ps = st.ps | {("needed",)}

    sites = [f.path for f in p.fns.values() for _, _, c in f.calls() if c is not None and c.path == extract.path]
    n = 0
    for r in roots_of(p, sites):
        fn = p.fns[r]
        c = Life()
        I = Interp(p, c)
        key = "extract/" + r
        for st, v in I.run(fn, ps=frozenset()):
            rep.ob(key, loc(fn.raw["span"]))
            if any(f[0] == "held" for f in st.ps):
                rep.bad(key, fn.raw["span"], "%s can return without restoring the passthroughs it extracted" % r)
        n += c.n
    rep.floor("extractions", n, 1)

    # (2)
    cp = T("p", carg(restore)[0])
    self_ = T("p", 1)
    key = "restore"

    class Res(Policy):
        def __init__(self):
            self.stores = set()

        def branch(self, I, st, fr, bi, term, value):
            if value is True and term.op == "call" and term.a[0].split("::")[-1] == "is_empty" and self_ in subterms(term):
                st.ps = st.ps | {"empty"}
            if value is True and term.op == "bin" and term.a[0] == "Eq" and any(
                    y.op == "un" and y.a[0] == "len" and self_ in subterms(y) for y in term.a[1:]) and any(
                    y.op == "const" and y.a[1] == 0 for y in term.a[1:]):
                st.ps = st.ps | {"empty"}
            if value == "Owned" and any(y.op == "call" and "replace" in y.a[0] for y in I.phi_inputs(term)):
                st.ps = st.ps | {"changed"}

        def after(self, I, st, ctx, value):
            nm = ctx.path.split("::")[-1]
            if nm in ("replace_all", "replace", "replacen", "replace_with_lookahead"):
                rep.ob(key, loc(ctx.span))
                if nm in ("replace", "replacen"):
                    rep.bad(key, ctx.span, "only some of the placeholders are replaced")
                if not any(cp in subterms(y) for a in ctx.args for y in I.deepterms(a)):
                    rep.bad(key, ctx.span, "placeholders are looked for in %s" % show(ctx.args[1]))
                st.ps = st.ps | {"replaced"}

        def assign(self, I, st, fr, bi, span, lv, term):
            if lv[0] is cp and any(y.op == "call" and "replace" in y.a[0] for y in I.deepterms(I.deep(st, term))):
                st.ps = st.ps | {"stored"}

    c = Res()
    I = Interp(p, c)
    for st, v in I.run(restore, ps=frozenset()):
        rep.ob(key, loc(restore.raw["span"]))
        if "empty" not in st.ps and "replaced" not in st.ps:
            rep.bad(key, restore.raw["span"], "%s can return without having looked for placeholders" % restore.path)
        if "changed" in st.ps and "stored" not in st.ps:
            rep.bad(key, restore.raw["span"], "the text with the passthroughs restored is not stored")

    # (3)
    key = "placeholder"

    class Add(Policy):
        def after(self, I, st, ctx, value):
            nm = ctx.path.split("::")[-1]
            if ctx.path.startswith("alloc::vec::Vec") and nm in ("push", "insert"):
                rep.ob(key, loc(ctx.span))
                if not any(y is T("p", 2) for y in I.deepterms(ctx.args[-1])):
                    rep.bad(key, ctx.span, "%s is added to the list instead of the passthrough" % show(ctx.args[-1]))
                if nm != "push":
                    rep.bad(key, ctx.span, "the passthrough is not added at the end of the list")
                st.ps = (st.ps[0] + 1, st.ps[1])
            elif nm in ("push", "push_str", "write_str", "write_fmt", "write_char", "extend", "insert_str"):
                st.ps = (st.ps[0], st.ps[1] + tuple(parts(ctx.args[1], st.ps[0])))

    def parts(t, pushed):
        if t.op == "fmt":
            for x in t.a[0]:
                yield from parts(x, pushed)
        elif t.op == "const" and isinstance(t.a[1], (str, int)):
            yield t.a[1] if isinstance(t.a[1], str) else chr(t.a[1])
        else:
            yield t

    I = Interp(p, Add())
    for st, v in I.run(push, ps=(0, ())):
        rep.ob(key, loc(push.raw["span"]))
        n, out = st.ps
        txt = []
        for x in out:
            if isinstance(x, str) and txt and isinstance(txt[-1], str):
                txt[-1] += x
            else:
                txt.append(x)
        ok = len(txt) == 3 and txt[0] == "\u0096" and txt[2] == "\u0097" and isinstance(txt[1], T("p", 1).__class__)
        if not ok:
            rep.bad(key, push.raw["span"], "the placeholder written is %s" % [show(x) if not isinstance(x, str) else x for x in txt])
        else:
            idx = txt[1]
            # The length of the list before the passthrough was added.
            lens = [y for y in subterms(idx) if y.op == "un" and y.a[0] == "len"]
            before = [y for y in lens if not any(z.op == "mut" for z in subterms(y))]
            minus = idx.op in ("bin", "f") and any(z.op == "bin" and z.a[0] == "Sub" and any(
                w.op == "const" and w.a[1] == 1 for w in z.a[1:]) for z in subterms(idx))
            good = (idx in before) or (lens and not before and minus)
            if not good:
                rep.bad(key, push.raw["span"], "the placeholder holds %s, which is not the index of the passthrough" % show(idx))
        if n != 1:
            rep.bad(key, push.raw["span"], "the passthrough is added %d times" % n)

    # (4): the replacers that own or borrow the list for restoring
    n = 0
    for fn in fns_with_replacer(p, pts, gapply):
        key = "replace/" + fn.self_adt
        c = Rest(p, rep, key, one, gapply, content)
        I = Interp(p, c)
        for st, v in I.run(fn, ps=frozenset()):
            n += 1
            rep.ob(key, loc(fn.raw["span"]))
            if ("found",) in st.ps or ("missed",) not in st.ps:
                k = len([f for f in st.ps if f[0] == "applied"])
                if k != 1:
                    rep.bad(key, fn.raw["span"], "the substitutions of a restored passthrough are %s" % ("not applied" if k == 0 else "applied more than once"))
                elif ("written",) not in st.ps:
                    rep.bad(key, fn.raw["span"], "the text of a restored passthrough is not written")
    rep.floor("paths of restoring a placeholder", n, 1)


def fns_with_replacer(p, pts, gapply):
    """Replacer methods of the types that restoration passes to a regex: the
    implementations that apply a substitution group."""
    for fn in p.fns.values():
        if fn.name == "replace_append" and fn.trait and fn.self_adt in p.adts:
            reach = p.reach([fn.path], stop={gapply.path})
            if any(c is not None and c.path == gapply.path for f in reach if f == fn.path or f not in known_fns() for _, _, c in p.fns[f].calls()):
                yield fn


class Rest(Policy):
    def __init__(self, p, rep, key, one, gapply, content):
        self.p, self.rep, self.key, self.one, self.gapply, self.content = p, rep, key, one, gapply, content

    def branch(self, I, st, fr, bi, term, value):
        if value == "None" or (value is False and term.op == "bin" and term.a[0] in ("Lt", "Le", "Gt", "Ge")):
            st.ps = st.ps | {("missed",)}

    def after(self, I, st, ctx, value):
        p = self.p
        if ctx.path == self.gapply.path:
            st.ps = st.ps | {("applied", ctx.span["l"] if ("applied", ctx.span["l"]) not in st.ps else -1)}
            st.ps = st.ps | {("found",)}
            g = {y for y in I.phi_inputs(ctx.args[0])}
            gb = {y.a[0] for y in g if y.op == "f" and y.a[2] == "subs"}
            if not g or any(y.op != "f" for y in g):
                self.rep.bad(self.key, ctx.span, "a passthrough gets the substitutions %s instead of its own" % show(ctx.args[0]))
                return
            owners = set().union(*[I.idents(y.a[0]) for y in g])
            texts = {y.a[0] for x in I.deepterms(ctx.args[1]) for y in [x] if y.op == "f" and I.idents(y.a[0]) & owners and y.a[2] != "subs"}
            if not texts:
                self.rep.bad(self.key, ctx.span, "the substitutions of a passthrough are applied to %s" % show(ctx.args[1]))
        nm = ctx.path.split("::")[-1]
        if nm in ("push_str", "push", "write_str", "extend", "add_assign") and ("found",) in st.ps and len(ctx.args) > 1:
            if any(y.op == "mut" and (y.a[0] == self.gapply.path or "render_" in y.a[0]) for y in I.deepterms(ctx.args[1])):
                st.ps = st.ps | {("written",)}
