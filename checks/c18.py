"""Path analysis of every function that makes a content out of source text and
of every function that builds a block or header part that stores such text:
(1) the content stored in a block has, on each path, gone through exactly one
application of a substitution group, and the group is, for a section title, the
title (= normal) group, and for other blocks a constant group of the kind of
block as overridden by the block's own attribute list; where the block stores
its group, it is the one that was applied. (2) Block titles, the document title,
the parts of the revision line and attribute values are, on each path, text that
went through exactly one application of the normal, respectively header, group.
(3) Wherever else a content is made and its text is used, no group or step is
applied to it twice."""

from checks.common import *
from checks.c13 import roots_of
from checks.c19 import flat_inputs, is_none, origin
from checks.c15 import GROUPS
from engine.interp import Interp, Policy, T, known_fns, subterms, show, flat

TECH = "path-sensitive abstract interpretation of MIR (provenance of contents)"
NOTE = ("All construction sites of contents outside the substitution code itself. Author names, whose substitutions depend on "
        "their shape, are covered by (3) only.")

#: field of a header part -> the group whose steps apply to it
FIELDS = {
    ("BlockMetadata", "title"): "Normal",
    ("Header", "title"): "Header",
    ("RevisionLine", "revnumber"): "Header",
    ("RevisionLine", "revdate"): "Header",
    ("RevisionLine", "revremark"): "Header",
    ("Attribute", "value"): "Header",
}


MADE = "content made from text"


#: the groups that a kind of block starts from, by its raw context
KINDS = {"comment": "None", "listing": "Verbatim", "literal": "Verbatim", "pass": "Pass"}


class Chains:
    def __init__(self, p):
        self.p = p
        self.content = p.adt("Content")
        self.gapply = p.method("SubstitutionGroup", "apply").path
        self.sapply = p.method("SubstitutionStep", "apply").path
        own = {f.path for f in p.fns.values() if f.self_adt == self.content}
        self.own = own
        self.makers = {f for f in own if f in p.fns and p.fns[f].locals[0].d == self.content and p.fns[f].name != "clone"}

    def is_maker(self, c):
        """Whether a call makes a content."""
        if c is None:
            return False
        return c.path in self.makers or (c.name in ("into", "from") and c.trait and any(
            x.k == "adt" and x.d == self.content for x in c.args))

    def chains(self, I, t):
        """[(applications, base)] of the content `t`: the calls that changed
        it, latest first."""
        out = []
        todo = [(t, ())]
        seen = set()
        while todo:
            x, ap = todo.pop()
            if (x, ap) in seen or len(ap) > 6:
                continue
            seen.add((x, ap))
            if x.op == "phi":
                todo += [(y, ap) for y in I.phi_inputs(x)]
            elif x.op == "mut" and x.a[0] in (self.gapply, self.sapply):
                todo.append((x.a[2][x.a[1]], ap + (x,)))
            elif x.op == "mut":
                todo.append((x.a[2][x.a[1]], ap))
            elif x.op == "over":
                todo.append((x.a[0], ap))
            elif x.op == "f" and x.a[2] in ("item", "0", "content") and x.a[0].op in ("agg", "phi"):
                todo.append((x.a[0], ap))
            else:
                ys = I.phi_inputs(x)
                if ys == {x}:
                    out.append((ap, x))
                else:
                    todo += [(y, ap) for y in ys]
        return out

    def texts(self, I, t):
        """Contents whose text `t` is made from."""
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi":
                todo.extend(I.phis.get(x, ()))
            elif x.op == "call" and x.a[0] in self.own and x.a[1]:
                yield x.a[1][0]
            elif x.op == "f" and x.a[2] == "rendered":
                yield x.a[0]
            elif x.op == "mut" and x.a[0] in self.p.fns:
                # Not the state (parser, warnings) the call was given.
                todo.append(x.a[2][x.a[1]])
            else:
                todo.extend(flat(x.a))

    def made(self, base):
        """Whether a chain's base is a content that was made here."""
        return (base.op == "call" and (base.a[0] in self.makers or base.a[0] == MADE)) or (
            base.op == "agg" and base.a[0] == self.content)


def group_of(I, term):
    """(constant groups, attribute list terms by which they are overridden,
    other terms, whether some alternative is not overridden)"""
    names, over, odd, plain = set(), [], [], False
    todo = [(term, False)]
    seen = set()
    while todo:
        x, o = todo.pop()
        if (x, o) in seen:
            continue
        seen.add((x, o))
        ys = I.phi_inputs(x)
        if ys != {x}:
            todo += [(y, o) for y in ys]
        elif x.op == "agg":
            names.add(x.a[1])
            plain = plain or not o
        elif x.op == "call" and x.a[0].endswith("override_via_attrlist"):
            todo.append((x.a[1][0], True))
            over.append(x.a[1][1])
        else:
            odd.append(x)
    return names, over, odd, plain


def check(p, rep):
    C = Chains(p)
    content = C.content
    meta = p.adt("BlockMetadata")
    section = p.adt("SectionBlock")
    known = known_fns()

    def in_content_module(fn):
        return fn.path.startswith("crate::content::") or fn.self_adt in (content,)

    creators = set()
    for fn in p.fns.values():
        if in_content_module(fn) or (fn.self_ty is None and fn.path.startswith("<crate::content")):
            continue
        for _, _, c in fn.calls():
            if C.is_maker(c):
                creators.add(re.sub(r"(::\{closure#\d+\})+$", "", fn.path))
    creators = {c for c in creators if not in_content_module(p.fns[c])}
    rep.floor("functions that make a content", len(creators), 1)
    # Helpers of creators in the same module are analysed in place.
    into = set(creators)
    files = {p.fns[c].file for c in creators}

    holders = {}
    for a, d in p.adts.items():
        if d["local"] and a != content:
            for v in d["variants"]:
                for f in v["fields"]:
                    if p.types[f["ty"]].s.split("<")[0] == content.split("<")[0] and p.types[f["ty"]].adt() == content:
                        holders.setdefault(a, []).append(f["name"])
    rep.floor("types that store a content", len(holders), 1)
    named = {}
    for (t, f), g in FIELDS.items():
        a = p.adt(t)
        if f not in {x["name"] for x in p.fields(a)}:
            raise FactsError("%s has no field %s" % (t, f))
        named.setdefault(a, {})[f] = g

    builders = {}
    for fn in p.fns.values():
        if fn.derived or (fn.trait and p.last(fn.trait) == "Clone"):
            continue
        for i, b in fn.live_blocks():
            for s in b["st"]:
                r = s.get("r")
                if r and r["k"] == "agg" and r["ak"] == "adt" and (norm(r["d"]) in holders or norm(r["d"]) in named):
                    builders.setdefault(re.sub(r"(::\{closure#\d+\})+$", "", fn.path), set()).add(norm(r["d"]))

    class Build(Policy):
        def __init__(self, root):
            self.into = into - {root}
            self.found = []
            self.absent = {}

        def flagkey(self, I, st, fr):
            # Keeps apart what depends on which constant text was chosen.
            return [(r[2], x.a[1]) for (r, path), x in sorted(st.store.items(), key=lambda k: repr(k[0]))
                    if not path and isinstance(r, tuple) and r[0] == "L" and r[1] == fr.id and x.op == "const" and x.a[1] in KINDS]

        def aggregate(self, I, st, fr, bi, span, term):
            if term.a[0] in holders or term.a[0] in named:
                self.found.append((span, term, [I.deep(st, v) for v in term.a[3]]))

        def call(self, I, st, ctx):
            if C.is_maker(ctx.callee):
                return [(st, T("call", MADE, tuple(ctx.args), ctx.site))]
            return None

        def after(self, I, st, ctx, value):
            if ctx.path != C.gapply:
                return
            if group_of(I, I.deep(st, ctx.args[0]))[3]:
                # Not overridden: is there known to be no attribute list here?
                absent = any(v == frozenset(["None"]) and any(y.op == "f" and y.a[2] == "attrlist" for y in I.phi_inputs(t))
                             for t, v in st.facts.items() if t.op in ("f", "phi"))
                self.absent[ctx.site] = self.absent.get(ctx.site, True) and absent

    def one_group(I, key, where, what, x, want):
        """Checks one content value; returns the applying call."""
        done = []
        for ap, base in C.chains(I, x):
            groups = [a for a in ap if a.a[0] == C.gapply]
            steps = [a for a in ap if a.a[0] == C.sapply]
            if not C.made(base):
                rep.bad(key, where, "%s is %s" % (what, show(base)))
                continue
            if len(groups) != 1 or steps:
                rep.bad(key, where, "substitutions are applied to %s %s" % (
                    what, "not at all" if not ap else "%d times" % (len(groups) + len(steps))))
                continue
            names, over, odd, plain = group_of(I, groups[0].a[2][0])
            if odd:
                rep.bad(key, where, "%s goes through the group %s" % (what, show(odd[0])))
            if want is not None:
                for n in names:
                    if GROUPS.get(n) != GROUPS[want]:
                        rep.bad(key, where, "%s goes through the %s group instead of %s" % (what, n, want))
                if over:
                    rep.bad(key, where, "the substitutions of %s are overridden" % what)
            done.append((groups[0], names, over, plain))
        return done

    roots = roots_of(p, set(builders) | creators)
    nsite = 0
    seen_fields = set()
    for r in roots:
        fn = p.fns[r]
        if in_content_module(fn):
            continue
        c = Build(r)
        I = Interp(p, c)
        I.meta_params = {T("p", i + 1) for i in range(fn.argc) if fn.locals[i + 1].adt() == meta}
        rets = I.run(fn)
        for span, term, vals in c.found:
            where = loc(span)
            short = p.last(term.a[0])
            fs = dict(zip(term.a[2], vals))
            for f in holders.get(term.a[0], ()):
                key = "%s/%s.%s" % (r, short, f)
                rep.ob(key, where)
                nsite += 1
                got = one_group(I, key, where, "the content of a %s" % short, fs[f],
                                "Title" if term.a[0] == section else None)
                if not got:
                    continue
                names = set().union(*(g[1] for g in got))
                over = [o for g in got for o in g[2]]
                plain = any(g[3] and not c.absent.get(g[0].a[-1]) for g in got)
                for x in flat_inputs(I, fs["context"]) if "context" in fs else ():
                    want = KINDS.get(x.a[1]) if x.op == "const" else None
                    if want is None:
                        rep.bad(key, where, "no substitutions are specified for a block whose context is %s" % show(x))
                    for n in names:
                        if want and n != want:
                            rep.bad(key, where, "the content of a %s block goes through the %s group" % (x.a[1], n))
                if term.a[0] != section:
                    al = fs.get("attrlist")
                    if plain:
                        # Then there must be no attribute list at all.
                        if al is None or any(not is_none(x) for x in flat_inputs(I, al)):
                            rep.bad(key, where, "the substitutions of a %s are not overridden by its attribute list" % short)
                    for o in over:
                        for x in flat_inputs(I, o):
                            if is_none(x):
                                continue
                            if not any(y.op == "f" and y.a[2] == "attrlist" for y in I.deepterms(x)):
                                rep.bad(key, where, "the substitutions of a %s are overridden by %s" % (short, show(x)))
                for g in fs:
                    ty = [x for x in p.fields(term.a[0]) if x["name"] == g][0]["ty"]
                    if p.types[ty].adt() == p.adt("SubstitutionGroup"):
                        a = {str(x) for call, *_ in got for x in I.idents(call.a[2][0])}
                        b = {str(x) for x in I.idents(fs[g])}
                        if a != b:
                            rep.bad(key, where, "the block reports the group %s, but %s was applied" % (
                                show(fs[g]), ", ".join(show(call.a[2][0]) for call, *_ in got)))
            for f, want in named.get(term.a[0], {}).items():
                key = "%s/%s.%s" % (r, short, f)
                for x in flat_inputs(I, fs[f]):
                    if is_none(x):
                        continue
                    if x.op == "agg" and x.a[1] in ("Set", "Unset"):
                        continue
                    if x.op == "agg" and x.a[1] == "Value":
                        x = x.a[3][0]
                    if any(origin(I, x, lambda b: b in I.meta_params) for _ in (0,)) and I.meta_params:
                        continue            # handed on as it is: C19
                    rep.ob(key, where)
                    seen_fields.add((short, f))
                    ts = list(C.texts(I, x))
                    if not ts:
                        rep.bad(key, where, "the %s of a %s is %s, without any substitutions" % (f, short, show(x)))
                    for t in ts:
                        one_group(I, key, where, "the %s of a %s" % (f, short), t, want)
        # (3)
        key = "use/" + r
        for st, v in rets:
            for t in list(C.texts(I, I.deep(st, v))):
                for ap, base in C.chains(I, t):
                    if not C.made(base):
                        continue
                    rep.ob(key, loc(fn.raw["span"]))
                    g = [a for a in ap if a.a[0] == C.gapply]
                    s = [a.a[2][0] for a in ap if a.a[0] == C.sapply]
                    if len(g) > 1 or (g and s) or len(set(s)) != len(s):
                        rep.bad(key, fn.raw["span"], "%s applies substitutions to the same text more than once" % r)
                    if not g and not s:
                        rep.bad(key, fn.raw["span"], "%s uses the text of a content without having applied substitutions" % r)
    rep.floor("stores of a content", nsite, 1)
    for k in FIELDS:
        if k not in seen_fields:
            rep.bad("field/%s.%s" % k, "-", "%s.%s is never set from text" % k)
