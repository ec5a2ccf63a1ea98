"""Every function that hands out warnings (in its result, or through a list that
it is given) is interpreted over all paths. The warnings that it raises, and those
that come with a part that it parsed and that it keeps in its result, have to be in
the warnings it hands out; at the top, in those of the document. A path is excused
where it has just seen that there are no warnings, or where it drops the part that
they belong to."""

from checks.common import *
from engine.interp import *

TECH = "path-sensitive dataflow: obligations for warnings, discharged when they reach what the function hands out"
NOTE = ("All functions that hand out warnings, all paths, all documents. Inline macros and include directives, which have no place to "
        "report warnings to, are outside of the rule. Warnings that come with a part that was tried and not kept may be dropped.")

MOVE = {"append", "extend", "push", "extend_from_slice", "insert", "extend_one", "splice"}
EAGER = {"then_some", "ok_or", "unwrap_or", "or", "map_or", "and", "xor"}
REMOVE = {"clear", "truncate", "pop", "remove", "swap_remove", "retain", "retain_mut", "dedup", "dedup_by", "dedup_by_key", "split_off"}


def iswarn(ty):
    return ty.k == "adt" and ty.d.split("::")[-1] in ("Warning", "WarningType") and "warnings::" in ty.d


def islist(ty):
    """A warning, or a list of them."""
    ty = ty.peel()
    if iswarn(ty):
        return True
    return ty.k in ("adt", "slice", "array") and any(iswarn(x.peel()) for x in kids(ty)) and not (
        ty.k == "adt" and ty.d.split("::")[-1] in ("MatchAndWarnings",))


def kids(ty):
    return list(ty.args) + ([ty.inner] if "t" in ty.raw else [])


def bears(p, ty, seen=None):
    """Whether values of this type carry warnings (not only borrow them)."""
    seen = set() if seen is None else seen
    if islist(ty):
        return True
    if ty.k == "tuple" or ty.k == "adt" and ty.d.startswith(("core::", "alloc::")):
        return any(bears(p, x, seen) for x in ty.args)
    if ty.k == "adt" and ty.d in p.adts and p.adts[ty.d]["local"]:
        if ty.d in seen:
            return False
        seen.add(ty.d)
        return any(islist(p.types[f["ty"]]) or bears(p, p.types[f["ty"]], seen) for v in p.adts[ty.d]["variants"] for f in v["fields"]
                   if p.types[f["ty"]].k in ("adt", "tuple"))
    return False


def content(p, ty):
    """Whether a value of this type holds a part of the document."""
    return any(x.k == "adt" and x.d in p.adts and p.adts[x.d]["local"] and not iswarn(x) for x in ty.walk()) or any(
        x.k == "param" for x in ty.walk())


class C(Policy):
    max_depth = 8
    max_states = 256

    def __init__(self, p, fn, carriers, rep, key):
        self.p, self.fn, self.carriers, self.rep, self.key = p, fn, carriers, rep, key
        self.names = {}
        self.n = 0
        self.reported = set()

    def enter(self, I, ctx, fn, depth):
        # Reads of the document do not matter here.
        if fn.path in self.carriers and fn.path in known_fns():
            return False
        return fn.path not in known_fns()

    def bad(self, span, msg):
        if msg not in self.reported:
            self.reported.add(msg)
            self.rep.bad(self.key, span, msg)

    def outer(self, t):
        """Whether a list belongs to the caller."""
        while isinstance(t, Term) and t.op in ("f", "cast"):
            t = t.a[0]
        return isinstance(t, Term) and t.op == "p"

    def lists(self, ctx):
        """Arguments through which a call may add warnings: (index, list)."""
        for i, ty in enumerate(ctx.types):
            if ty is not None and ty.k == "ref" and ty.mut and islist(ty.inner) and not iswarn(ty.inner):
                yield i

    def aggregate(self, I, st, fr, bi, span, t):
        if t.op == "agg" and t.a[0].endswith("warnings::Warning") and len(t.a[3]) > 1:
            k = ("raised", span["f"], span["l"], fr.fn.path, kind(I, t))
            self.names[k] = (span, "a warning that is raised here")
            st.ps = st.ps | {k}
            self.n += 1

    def call(self, I, st, ctx):
        nm = ctx.path.split("::")[-1]
        ls = list(self.lists(ctx))
        if nm in REMOVE and ls and ls[0] == 0 and not (ctx.callee is not None and ctx.callee.local):
            self.bad(ctx.span, "%s takes warnings out of the list (%s)" % (self.fn.name, nm))
        if nm in MOVE and ls and ls[0] == 0 and len(ctx.args) > 1:
            self.settle(I, st, ctx.args[1:])
            root, path = I.target(ctx.raw[0])
            if not self.outer(root):
                k = ("moved", str(root), str(path))
                self.names[k] = (ctx.span, "the list that warnings are added to here")
                st.ps = st.ps | {k}
                self.sites.setdefault(k, set()).add(ctx.site)
        return None

    def settle(self, I, st, terms):
        """Obligations that adding these values to a list fulfils."""
        given = self.given(I, terms)
        st.ps = frozenset(k for k in st.ps if not (
            k[0] == "owed" and ("call", k[2]) in given or k[0] == "raised" and raised(k, given)))

    def given(self, I, terms):
        """What lists of warnings are made of."""
        out = set()
        seen = set()
        todo = list(terms)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi":
                todo.extend(I.phi_inputs(x))
            elif x.op == "call":
                out.add(("call", x.a[-1]))
                if x.a[0] not in self.carriers:
                    todo.extend(x.a[1])
            elif x.op == "mut":
                out.add(("mut", x.a[-1]))
                if x.a[0] in self.carriers:
                    todo.append(x.a[2][x.a[1]])
                else:
                    todo.extend(x.a[2])
            elif x.op == "agg" and x.a[0].endswith("warnings::Warning"):
                out.add(("raised", kind(I, x)))
                todo.extend(x.a[3])
            else:
                if x.op == "clo":
                    out.add(x.a[0])
                todo.extend(flat(x.a))
        return out

    def modelled(self, I, st, ctx, value):
        if ctx.path.split("::")[-1] in EAGER and any(k[0] == "raised" for k in st.ps):
            # A warning made in case it is needed, and not needed.
            gone = {g for g in self.given(I, ctx.args) if g[0] == "raised"} - self.given(I, [value])
            st.ps = frozenset(k for k in st.ps if not (k[0] == "raised" and ("raised", k[4]) in gone))

    def after(self, I, st, ctx, value):
        if ctx.path not in self.carriers or ctx.path not in known_fns():
            return
        g = self.p.fns[ctx.path]
        if bears(self.p, g.locals[0]):
            k = ("owed", ctx.path, ctx.site)
            self.names[k] = (ctx.span, "the warnings of %s" % short(ctx.path))
            if k in st.ps:
                # Called again: what it returned before is still owed.
                st.ps = st.ps | {("again",) + k[1:]}
                self.names[("again",) + k[1:]] = self.names[k]
            st.ps = st.ps | {k}
            self.n += 1
        for i in self.lists(ctx):
            root, path = I.target(ctx.raw[i])
            self.n += 1
            if not self.outer(root):
                k = ("moved", str(root), str(path))
                self.names[k] = (ctx.span, "the list that %s adds warnings to" % short(ctx.path))
                self.sites.setdefault(k, set()).add(ctx.site)
                st.ps = st.ps | {k}

    def branch(self, I, st, fr, bi, term, value):
        if term is None or not any(k[0] == "owed" for k in st.ps):
            return
        both = None
        for t in I.phi_inputs(term):
            if t.op == "const" and t.a[1] != value:
                continue
            x = self.none(t, value)
            calls = {(y.a[0], y.a[-1]) for y in self.roots(I, x) if y.op == "call"} if x is not None else set()
            both = calls if both is None else both & calls
        if both:
            st.ps = frozenset(k for k in st.ps if not (k[0] == "owed" and (k[1], k[2]) in both))

    def none(self, t, v):
        """What turns out to be empty or absent if a test has this outcome."""
        while t.op == "un" and t.a[0] == "Not" and isinstance(v, bool):
            t, v = t.a[1], not v
        nm = t.a[0].split("::")[-1] if t.op == "call" else None
        if nm == "is_empty":
            return t.a[1][0] if v is True else None
        if nm in ("is_some", "is_none"):
            return t.a[1][0] if v is (nm == "is_none") else None
        if t.op == "isv":
            return t.a[0] if v is True and t.a[1] == "None" or v is False and t.a[1] == "Some" else None
        if t.op == "bin" and isinstance(v, bool):
            return nolen(t.a, v)
        if v == "None":
            return t.a[1][0] if nm in ("next", "pop", "first", "last") else t
        return None

    def roots(self, I, t):
        """The calls that a value is a part of, or an iterator over a part of."""
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi":
                todo.extend(I.phi_inputs(x))
            elif x.op in ("f", "cast"):
                todo.append(x.a[0])
            elif x.op == "call" and x.a[0] not in self.carriers and x.a[0].split("::")[-1] in ("iter", "into_iter", "drain", "deref", "clone", "next", "as_ref", "new", "len"):
                todo.extend(x.a[1][:1])
            elif x.op == "mut":
                todo.append(x.a[2][x.a[1]])
            else:
                yield x


def kind(I, t):
    """Which warning this is, if known."""
    ks = set()
    for x in t.a[3]:
        for y in I.phi_inputs(x):
            if y.op == "agg" and y.a[0].endswith("warnings::WarningType"):
                ks.add(y.a[1])
            elif y.op == "const" and y.a[1] is not None:
                ks.add(str(y.a[1]))
    return ks.pop() if len(ks) == 1 else None


def raised(k, given):
    """Whether a warning that was raised is among what is given."""
    ks = {g[1] for g in given if isinstance(g, tuple) and g[0] == "raised"}
    return k[3] in given or (k[4] in ks or None in ks if k[4] is not None else bool(ks))


def nolen(a, v):
    """What is empty if a comparison of a length has this outcome."""
    op, x, y = a[0], a[1], a[2]
    if y.op == "un" and y.a[0] == "len":
        op, x, y = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op), y, x
    if not (x.op == "un" and x.a[0] == "len" and y.op == "const"):
        return None
    n = y.a[1]
    if (op, v, n) in (("Eq", True, 0), ("Ne", False, 0), ("Gt", False, 0), ("Ge", False, 1), ("Lt", True, 1), ("Le", True, 0)):
        return x.a[1]
    return None


def split(p, v, ty, W, X):
    """Sorts the parts of a result into warnings and the rest."""
    if islist(ty):
        W.append(v)
    elif v.op == "agg":
        d = p.adts.get(v.a[0])
        ftys = {}
        if d is not None:
            for va in d["variants"]:
                if va["name"] == v.a[1]:
                    ftys = {f["name"]: p.types[f["ty"]] for f in va["fields"] if f["ty"] is not None}
        if d is not None and d["local"] or v.a[0].startswith(("core::option", "core::result")):
            for i, (n, x) in enumerate(zip(v.a[2], v.a[3])):
                fty = ftys.get(n)
                if fty is None or fty.k == "param":
                    args = [a for a in ty.args if a.k != "lifetime"]
                    fty = args[min(i + (v.a[1] == "Err"), len(args) - 1)] if args else None
                if fty is None:
                    X.append(x)
                else:
                    split(p, x, fty, W, X)
        else:
            X.append(v)
    elif v.op == "tuple" and ty.k == "tuple" and len(v.a[0]) == len(ty.args):
        for x, t in zip(v.a[0], ty.args):
            split(p, x, t, W, X)
    else:
        if bears(p, ty):
            W.append(v)
        if content(p, ty):
            X.append(v)


def absent(I, X, v):
    """Whether a path hands out no part of the document."""
    return all(x.op == "agg" and not x.a[3] for x in X) if X else v.op == "agg" and not v.a[3]


def carriers(p):
    out = {}
    for fn in p.fns.values():
        if "{promoted" in fn.path or fn.trait and fn.name in ("clone", "eq", "fmt"):
            continue
        ret = bears(p, fn.locals[0]) and fn.locals[0].k != "ref"
        par = [i for i in range(1, fn.argc + 1) if fn.locals[i].k == "ref" and fn.locals[i].mut and islist(fn.locals[i].inner)]
        if ret or par:
            out[fn.path] = fn
    return out


def judge(p, I, c, fn, st, v):
    """Whether the obligations of one path are met by what it hands out."""
    W, X = [], []
    split(p, v, fn.locals[0], W, X)
    if absent(I, X, v) and fn.locals[0].s != "()" and content(p, fn.locals[0]):
        return
    for i in range(1, fn.argc + 1):
        if fn.locals[i].k == "ref" and fn.locals[i].mut:
            if islist(fn.locals[i].inner):
                W.append(I.deep(st, I.load(st, T("p", i), ())))
    given = c.given(I, W)
    kept = set()
    for x in X:
        for y in I.deepterms(x):
            if y.op == "call":
                kept.add((y.a[0], y.a[-1]))
    for k in sorted(st.ps, key=repr):
        span, what = c.names[k]
        if k[0] == "owed" and (k[1], k[2]) in kept and ("call", k[2]) not in given:
            c.bad(span, "%s are not handed on by %s, which keeps the part they belong to" % (what, fn.name))
        if k[0] == "again" and (k[1], k[2]) in kept:
            c.bad(span, "%s are not handed on by %s each time" % (what, fn.name))
        if k[0] == "moved" and not any(("mut", s) in given for s in c.sites[k]):
            c.bad(span, "%s is not handed on by %s" % (what, fn.name))
        if k[0] == "raised" and not raised(k, given):
            c.bad(span, "%s is not handed on by %s" % (what, fn.name))


def check(p, rep):
    cs = {q: f for q, f in carriers(p).items() if "::Iter<" not in f.locals[0].s}
    doc = p.adt("InternalDependent")
    if not any(islist(p.types[f["ty"]]) for f in p.fields(doc)):
        raise FactsError("the document has no list of warnings")
    roots = dict(cs)
    # Closures of functions that hand out warnings may use their lists.
    for fn in p.fns.values():
        if "{closure" in fn.path and fn.path.split("::{closure")[0] in cs:
            roots[fn.path] = fn
    for fn in p.fns.values():
        if any(s.get("r", {}).get("k") == "agg" and norm(s["r"].get("d", "")) == doc for _, b in fn.live_blocks() for s in b["st"]):
            roots[fn.path] = fn
    n = 0
    for q, fn in sorted(roots.items()):
        if fn.trait and fn.name == "clone":
            continue
        # Only functions that meet warnings.
        key = fn.path.split("crate::")[-1]
        c = C(p, fn, set(cs), rep, key)
        c.sites = {}
        I = Interp(p, c)
        exits = I.run(fn, ps=frozenset())
        if not c.n:
            continue
        rep.ob(key, loc(fn.raw["span"]))
        n += c.n
        for st, v in exits:
            for x in I.phi_inputs(v):
                judge(p, I, c, fn, st, I.deep(st, x))
    rep.floor("sources of warnings", n, 1)
    rep.floor("functions that hand out warnings", len(cs), 1)
