"""(1) Path analysis of the step table: for each substitution group the list of
steps is read off and compared with the documented one. (2) The application of
a group takes the steps from that table, in the table's order, applies each
step exactly once to the content it was given, and applies nothing else.
(3) Each step runs code from which the renderer operation of that step (and no
operation that belongs to another step) can be reached, for every step that a
group or a step name can select. (4) The parser of custom substitution lists
maps each accepted name to the step or group of that name, adds it at the end
(`+name`, `name`), adds it at the front (`name+`) or removes it (`-name`)."""

from checks.common import *
from checks.c19 import flat_inputs, is_none
from engine.interp import Interp, Policy, T, known_fns, subterms, show, const, Infeasible

TECH = "path-sensitive abstract interpretation of MIR; call-graph reachability"
NOTE = "All groups, all steps, all step names, on all paths."

SIX = ["SpecialCharacters", "Quotes", "AttributeReferences", "CharacterReplacements", "Macros", "PostReplacement"]
GROUPS = {
    "Normal": SIX, "Title": SIX,
    "Header": ["SpecialCharacters", "AttributeReferences"],
    "AttributeEntryValue": ["SpecialCharacters", "AttributeReferences"],
    "Verbatim": ["SpecialCharacters"], "Pass": [], "None": [],
}
NAMES = {
    "c": "SpecialCharacters", "specialcharacters": "SpecialCharacters", "specialchars": "SpecialCharacters",
    "q": "Quotes", "quotes": "Quotes", "a": "AttributeReferences", "attributes": "AttributeReferences",
    "r": "CharacterReplacements", "replacements": "CharacterReplacements", "m": "Macros", "macros": "Macros",
    "p": "PostReplacement", "post_replacements": "PostReplacement",
}
WHOLE = {"none": "None", "n": "Normal", "normal": "Normal", "v": "Verbatim", "verbatim": "Verbatim"}
#: renderer operations that one step only may reach
OPS = {
    "SpecialCharacters": {"render_special_character"},
    "Quotes": {"render_quoted_substitition"},
    "CharacterReplacements": {"render_character_replacement"},
    "Macros": {"render_image", "render_icon", "render_link", "render_anchor"},
    "PostReplacement": {"render_line_break"},
    "AttributeReferences": set(),
}


def slice_of(p, ty, adt):
    return any(x.k == "adt" and x.d == adt for x in ty.walk()) and ty.peel().d != adt


def is_next(I, term):
    """Whether a test is about the outcome of an iterator step."""
    xs = I.phi_inputs(term)
    return bool(xs) and all(x.op == "call" and x.a[0].split("::")[-1] == "next" for x in xs)


def steps_in(I, st, t):
    """The list of steps a term denotes, or None."""
    t = I.deep(st, t)
    if t.op == "array":
        r = []
        for x in t.a[0]:
            if x.op != "agg":
                return None
            r.append(x.a[1])
        return r
    if t.op == "call" and t.a[0].split("::")[-1] in ("to_vec", "into_vec", "box_assume_init_into_vec_unsafe", "to_owned", "into_boxed_slice", "from") and t.a[1]:
        return steps_in(I, st, t.a[1][0])
    if t.op in ("call", "constitem") and t.a[0].split("::")[-1] == "new":
        return []
    return None


def check(p, rep):
    group = p.adt("SubstitutionGroup")
    step = p.adt("SubstitutionStep")

    # (1)
    tables = [f for f in p.fns.values() if f.kind == "fn" and not f.trait and f.argc == 1 and f.locals[1].adt() == group
              and slice_of(p, f.locals[0], step) and not f.derived]
    if len(tables) != 1:
        raise FactsError("the table of steps: found %s" % tables)
    table = tables[0]
    seen = {}
    for v in p.variants(group):
        I = Interp(p, Policy())
        for st, val in I.run(table, facts={T("p", 1): frozenset([v])}):
            for x in I.phi_inputs(val):
                key = "table/" + v
                rep.ob(key, loc(table.raw["span"]))
                if v not in GROUPS:
                    x = I.deep(st, x)
                    if not any(y.op == "f" and y.a[0] is T("p", 1) for y in I.deepterms(x)) or x.op == "array":
                        rep.bad(key, table.raw["span"], "the steps of a %s group are %s and not its own" % (v, show(x)))
                    continue
                got = steps_in(I, st, x)
                seen[v] = got
                if got != GROUPS[v]:
                    rep.bad(key, table.raw["span"], "a %s group performs %s instead of %s" % (v, got if got is not None else show(x), GROUPS[v]))
    rep.floor("groups with a fixed list", len(seen), 1)

    # (2)
    apply_ = p.method("SubstitutionGroup", "apply")
    sapply = p.method("SubstitutionStep", "apply")
    cargs = [i for i in range(1, apply_.argc + 1) if apply_.locals[i].adt() == p.adt("Content")]
    if len(cargs) != 1:
        raise FactsError("the content argument of SubstitutionGroup::apply")
    content = T("p", cargs[0])
    ITER = {"next", "into_iter", "iter", "copied", "cloned", "to_owned", "to_vec", "clone", "deref", "as_slice", "borrow", "as_ref"}

    class App(Policy):
        def __init__(self):
            self.n = 0
            self.loops = 0

        def branch(self, I, st, fr, bi, term, value):
            if is_next(I, term) and any(y.op == "call" and y.a[0] == table.path for y in I.deepterms(term)):
                if st.ps == "pending":
                    rep.bad("apply/each", "%s:%d" % (apply_.file, apply_.line), "a step of the group can be skipped")
                st.ps = "pending" if value == "Some" else "done"
                self.loops += 1

        def call(self, I, st, ctx):
            if ctx.path == table.path:
                rep.ob("apply/table", loc(ctx.span))
                if ctx.args[0] is not T("p", 1):
                    rep.bad("apply/table", ctx.span, "the steps applied are those of %s" % show(ctx.args[0]))
            if ctx.path == sapply.path:
                self.n += 1
                rep.ob("apply/step", loc(ctx.span))
                s = ctx.args[0]
                names = {y.a[0].split("::")[-1] for y in I.deepterms(s) if y.op in ("call", "mut")} - {"steps"}
                if not any(y.op == "call" and y.a[0] == table.path for y in I.deepterms(s)):
                    rep.bad("apply/step", ctx.span, "the step applied, %s, does not come from the group's table" % show(s))
                elif not names - {"extract_from", table.name} <= ITER:
                    rep.bad("apply/step", ctx.span, "the steps are not applied in the order of the table: %s" % sorted(names - ITER))
                ok = any(x is content or (x.op == "mut" and content in subterms(x)) for x in I.phi_inputs(ctx.args[1]))
                if not ok:
                    rep.bad("apply/step", ctx.span, "the step is applied to %s" % show(ctx.args[1]))
                if st.ps != "pending":
                    rep.bad("apply/step", ctx.span, "a step is applied more than once or without being on the list")
                st.ps = "applied"
            return None

    c = App()
    I = Interp(p, c)
    for st, v in I.run(apply_, ps="start"):
        rep.ob("apply/all", loc(apply_.raw["span"]))
        if st.ps != "done":
            rep.bad("apply/all", apply_.raw["span"], "the group's steps are not all applied on some path")
    if not c.n or not c.loops:
        rep.bad("apply", apply_.raw["span"], "the steps of the table are not applied one by one")

    # (3)
    renderer = [t for t in p.traits if p.last(t) == "InlineSubstitutionRenderer"][0]
    ops = set(x for v in OPS.values() for x in v)
    allops = set()
    for fn in p.fns.values():
        for _, _, cc in fn.calls():
            if cc is not None and cc.trait and cc.trait.split("<")[0] == renderer and cc.name.startswith("render_"):
                allops.add(cc.name)
    groupapply = {apply_.path, sapply.path}
    for s in SIX:
        called = {}

        class Disp(Policy):
            def call(self, I, st, ctx):
                st.ps = st.ps | {ctx.path}
                if ctx.path in p.fns and not ctx.path.startswith("<") and ctx.callee and ctx.callee.kind == "item":
                    called.setdefault(ctx.path, ctx.span)
                if ctx.callee is not None and ctx.callee.name.startswith("render_"):
                    called.setdefault(ctx.path, ctx.span)
                return None

            def panic(self, I, st, fr, bi, term):
                if term["k"] == "call":
                    rep.bad("step/" + s, term["s"], "applying %s reaches %s" % (s, fr.fn.callee(term)))
        I = Interp(p, Disp())
        key = "step/" + s
        rep.ob(key, loc(sapply.raw["span"]))
        rets = I.run(sapply, ps=frozenset(), facts={T("p", 1): frozenset([s])})
        if not rets:
            rep.bad(key, sapply.raw["span"], "step %s is not implemented" % s)
        reach = p.reach([x for x in called if x in p.fns], stop=groupapply)
        names = {x.split("::")[-1] for x in called if x not in p.fns}
        for f in reach:
            fn = p.fns[f]
            if fn.trait and p.last(fn.trait) == "InlineSubstitutionRenderer":
                continue
            for _, _, cc in fn.calls():
                if cc is not None and cc.trait and cc.trait.split("<")[0] == renderer:
                    names.add(cc.name)
        mine = OPS[s]
        if not mine <= names:
            rep.bad(key, sapply.raw["span"], "step %s cannot reach %s" % (s, sorted(mine - names)))
        foreign = names & (ops - mine)
        if foreign:
            rep.bad(key, sapply.raw["span"], "step %s also performs %s, which belongs to another step" % (s, sorted(foreign)))
        if s == "AttributeReferences":
            attr = {f.path for f in p.fns.values() if f.self_adt == p.adt("Parser") and f.kind == "fn"}
            if not (reach | set(called)) & attr:
                rep.bad(key, sapply.raw["span"], "step %s looks up no attribute" % s)
    rep.floor("renderer operations", len(allops & ops), 1)

    # (4)
    customs = [f for f in p.fns.values() if f.kind == "fn" and f.self_adt == group and not f.trait
               and f.locals[0].s.startswith("core::option::Option<") and any(x.k == "adt" and x.d == group for x in f.locals[0].walk())
               and any(f.locals[i].peel().s == "str" for i in range(1, f.argc + 1))]
    if len(customs) != 1:
        raise FactsError("the parser of custom substitution lists: found %s" % customs)
    custom = customs[0]
    text = [T("p", i) for i in range(1, custom.argc + 1) if custom.locals[i].peel().s == "str"]

    def whole(I, x):
        """Whether a string term is the (trimmed) argument and not a part."""
        for y in I.phi_inputs(x):
            while y.op == "call" and y.a[0].split("::")[-1].startswith("trim") and len(y.a[1]) == 1:
                y = y.a[1][0]
            if y not in text:
                return False
        return True

    class Cus(Policy):
        def __init__(self):
            self.names = set()
            self.changes = 0
            self.mods = set()
            self.pairs = set()
            self.own = set()

        def branch(self, I, st, fr, bi, term, value):
            if is_next(I, term):
                if value == "Some":
                    st.ps = frozenset()
                return
            if term.op != "call":
                return
            n = term.a[0].split("::")[-1]
            args = term.a[1]
            if len(args) != 2:
                return
            for x, y in (args, args[::-1]):
                if y.op == "const" and isinstance(y.a[1], str):
                    w = whole(I, x)
                    if n in ("eq",) and value is True:
                        st.ps = frozenset(f for f in st.ps if f[0] != "is") | {("is", y.a[1], w)}
                    if n in ("starts_with", "ends_with") and not w:
                        st.ps = st.ps | {(n, y.a[1], value)}
                    if n in ("strip_prefix", "strip_suffix") and not w:
                        m = {"strip_prefix": "starts_with", "strip_suffix": "ends_with"}[n]
                        st.ps = st.ps | {(m, y.a[1], value == "Some")}

        def current(self, st):
            for f in st.ps:
                if f[0] == "is":
                    return f[1], f[2]
            return None, None

        def kind(self, st):
            if ("starts_with", "+", True) in st.ps:
                return "+name"
            if ("ends_with", "+", True) in st.ps:
                return "name+"
            if ("starts_with", "-", True) in st.ps:
                return "-name"
            return "name"

        def change(self, I, st, ctx, how, val):
            self.changes += 1
            name, w = self.current(st)
            key = "name/%s" % name
            rep.ob(key, loc(ctx.span))
            self.names.add(name)
            vs = {y.a[1] if y.op == "agg" else show(y) for y in I.phi_inputs(val)}
            if name not in NAMES:
                rep.bad(key, ctx.span, "step %s is selected although no step name was recognized (last match: %s)" % (sorted(vs), name))
            elif vs != {NAMES[name]}:
                rep.bad(key, ctx.span, "the step name '%s' selects %s instead of %s" % (name, sorted(vs), NAMES[name]))
            k = self.kind(st)
            self.mods.add(k)
            self.pairs.add((name, k))
            if any(x.op != "mut" and y.op == "call" and y.a[0] == table.path
                   for x in I.phi_inputs(ctx.args[0]) for y in subterms(x)):
                self.own.add(k)
            if how != {"+name": "append", "name": "append", "name+": "prepend", "-name": "remove"}[k]:
                rep.bad("modifier/" + k, ctx.span, "a step written as %s is handled by: %s" % (k, how))
            rep.ob("modifier/" + k, loc(ctx.span))
            st.ps = st.ps | {("changed",)}

        def call(self, I, st, ctx):
            if ctx.callee is None or not ctx.types or ctx.types[0] is None:
                return None
            t0 = ctx.types[0]
            if t0.k == "ref" and t0.mut and t0.inner.s == "alloc::vec::Vec<%s>" % step:
                n = ctx.callee.name
                if n == "push":
                    self.change(I, st, ctx, "append", ctx.args[1])
                elif n == "insert":
                    at = ctx.args[1]
                    self.change(I, st, ctx, "prepend" if at.op == "const" and at.a[1] == 0 else "insertion in the middle", ctx.args[2])
                elif n in ("retain", "retain_mut"):
                    clo = I.closure_of(st, ctx.raw[1])
                    val, neg = self.retained(I, st, clo)
                    self.change(I, st, ctx, "remove" if neg else "keep only", val)
                elif not ctx.callee.local and n not in ("deref_mut", "reserve", "clear"):
                    rep.bad("list/" + n, ctx.span, "the list of steps is changed by %s" % ctx.path)
                elif n == "clear":
                    st.ps = st.ps | {("cleared",)}
            return None

        def retained(self, I, st, clo):
            if clo is None:
                return T("unk", "closure"), False
            J = Interp(p, Policy())
            fn = p.fns[clo.a[0]]
            vals = set()
            neg = False
            s0 = T("p", 2)
            for st2, v in J.run(fn, args=[I.deep(st, clo), s0]):
                n = 0
                while v.op == "un" and v.a[0] == "Not":
                    v = v.a[1]
                    n += 1
                # The comparison of the element with the captured step.
                other = None
                if v.op in ("call",) and len(v.a[1]) == 2 and s0 in v.a[1]:
                    other = [x for x in v.a[1] if x is not s0][0]
                    if v.a[0].split("::")[-1] == "ne":
                        n += 1
                elif v.op == "isv":
                    other = T("agg", v.a[2], v.a[1], (), ())
                if other is None:
                    return T("unk", "closure"), False
                vals.add(other)
                neg = n % 2 == 1
            return (vals.pop() if len(vals) == 1 else T("unk", "closure")), neg

    c = Cus()
    I = Interp(p, c)
    whole_seen = set()
    for st, v in I.run(custom, ps=frozenset()):
        for x in flat_inputs(I, v):
            if is_none(x):
                continue
            if x.op != "agg":
                rep.bad("custom/result", custom.raw["span"], "the group returned is %s" % show(x))
                continue
            if x.a[1] == "Custom":
                continue
            name, w = c.current(st)
            key = "group/%s" % name
            rep.ob(key, loc(custom.raw["span"]))
            whole_seen.add(name)
            if not w or WHOLE.get(name) != x.a[1]:
                rep.bad(key, custom.raw["span"], "the list '%s' selects the group %s" % (name, x.a[1]))
    for n in sorted(set(NAMES) - c.names):
        rep.bad("name/" + n, custom.raw["span"], "the step name '%s' is never recognized" % n)
    for n in sorted(set(WHOLE) - whole_seen):
        rep.bad("group/" + n, custom.raw["span"], "the group name '%s' is never recognized" % n)
    for k in ("+name", "name", "name+", "-name"):
        if k not in c.mods:
            rep.bad("modifier/" + k, custom.raw["span"], "a step written as %s has no effect" % k)
        else:
            for n in sorted(set(NAMES) & c.names):
                if (n, k) not in c.pairs:
                    rep.bad("name/" + n, custom.raw["span"], "the step name '%s' is not recognized in the form %s" % (n, k))
            rep.ob("start/" + k, loc(custom.raw["span"]))
            if k != "name" and k not in c.own:
                rep.bad("start/" + k, custom.raw["span"], "a list that starts with %s never starts from the steps of the block's own group" % k)
    rep.floor("changes of the step list", c.changes, 1)
