"""(1) A function of the preprocessor's state that resolves includes and calls
itself (directly or through helpers, which are interpreted in place) is
interpreted on all paths. A measure (a number in the state, or a parameter)
must have been increased on every path to the recursive call, by which the call
gets the increased number; on the path, a test must have bounded the increased
number by a constant; the number is changed in no other way, and is back at
its value on entry wherever the function returns. The include handler is called
only on paths with such a test. (2) A replacer that restores passthroughs and
starts a further restoration gives it a limit that was tested to be below its
own limit on the path; it restores only a passthrough whose number was tested
in the same way. Limits are changed nowhere else."""

from checks.common import *
from checks.c13 import roots_of
from engine.interp import Interp, Policy, T, show

TECH = "path-sensitive abstract interpretation of MIR (ranking function and its guard on every recursive call)"
NOTE = "All functions that resolve includes or restore passthroughs, on all paths."

CMP = {"Lt": (-1, 0), "Le": (-1, 0), "Gt": (1, 0), "Ge": (1, 0)}


def check(p, rep):
    includes(p, rep)
    passthroughs(p, rep)


def upper(x, value):
    """(low, high, strict) that a test says: low < high or low <= high."""
    if x.op == "un" and x.a[0] == "Not":
        return upper(x.a[1], "False" if str(value) == "True" else "True")
    if x.op != "bin" or x.a[0] not in CMP or str(value) not in ("True", "False"):
        return None
    a, b = x.a[1], x.a[2]
    less = x.a[0] in ("Lt", "Le")
    strict = x.a[0] in ("Lt", "Gt")
    if str(value) == "False":
        less, strict = not less, not strict
    return (a, b, strict) if less else (b, a, strict)


def plain(x):
    return x.a[0] if x.op == "f" and x.a[0].op == "bin" else x


def includes(p, rep):
    handler = [t for t in p.traits if p.last(t) == "IncludeFileHandler"]
    if len(handler) != 1:
        raise FactsError("the trait of include handlers: found %s" % handler)
    sites = {}
    for fn in p.fns.values():
        if fn.kind == "const":
            continue
        for bi, t, c in fn.calls():
            if c is not None and c.trait == handler[0]:
                sites.setdefault(fn.path.split("::{closure")[0], []).append(t["s"])
    rep.floor("calls of the include handler", sum(len(v) for v in sites.values()), 1)
    # functions on a cycle that contains such a call
    edges = p.edges()

    def reach(a):
        seen, todo = set(), [a]
        while todo:
            for y in edges.get(todo.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen

    known = set(roots_of(p, sites))
    n = 0
    for r in sorted(known):
        n += 1
        measure(p, rep, p.fns[r], r in reach(r), handler[0])
    rep.floor("functions that resolve includes", n, 1)


def measure(p, rep, fn, recursive, handler):
    short = p.last(fn.path)
    problems = {}
    state = fn.self_adt
    calls = []

    def bad(key, span, msg):
        problems.setdefault((key, loc(span)), msg)

    # candidates for the measure: numbers in the state that the function
    # changes, and parameters
    nums = [f["name"] for f in p.fields(state) if p.types[f["ty"]].k == "uint"] if state in p.adts and p.adts[state]["kind"] == "struct" else []
    params = [i + 1 for i in range(fn.argc) if fn.locals[i + 1].k == "uint"]
    results = []
    for kind, m in [("field", x) for x in nums] + [("param", x) for x in params]:
        problems = {}
        seen = {"calls": 0, "handler": 0, "changed": False}

        def is_measure(I, x, been=None):
            been = been if been is not None else set()
            for y in I.phi_inputs(x):
                y = plain(y)
                if y in been:
                    continue
                been.add(y)
                if y.op == "bin" and y.a[0].startswith(("Add", "Sub")) and y.a[2].op == "const":
                    if not is_measure(I, y.a[1], been):
                        return False
                elif kind == "field" and y.op == "f" and y.a[2] == m:
                    pass
                elif kind == "param" and y.op == "p" and y.a[0] == m:
                    pass
                elif y.op == "phi":
                    pass
                else:
                    return False
            return True

        class C(Policy):
            into = {f.path for f in p.fns.values() if f.self_adt == state and f.path != fn.path}

            def get(self, st, k):
                for x in st.ps:
                    if x[0] == k:
                        return x[1]

            def put(self, st, k, v):
                st.ps = frozenset(x for x in st.ps if x[0] != k) | {(k, v)}

            def branch(self, I, st, fr, bi, term, value):
                for x in I.phi_inputs(term):
                    u = upper(x, value)
                    if u and bounded(I, u[1]) and is_measure(I, u[0]):
                        self.put(st, "guard", True)

            def statement(self, I, st, fr, bi, s):
                if kind != "field" or "r" not in s:
                    return
                pl = s["p"].get("p", [])
                e = pl[-1] if pl else None
                if not (isinstance(e, dict) and e.get("n") == m and norm(e.get("adt", "")) == state):
                    return
                seen["changed"] = True
                v = I.rvalue(fr, bi, st, s)
                ds = set()
                for x in I.phi_inputs(v):
                    x = plain(x)
                    if x.op == "bin" and x.a[0][:3] in ("Add", "Sub") and x.a[2].op == "const" and is_measure(I, x.a[1]):
                        ds.add(x.a[2].a[1] if x.a[0].startswith("Add") else -x.a[2].a[1])
                    else:
                        ds.add(None)
                if len(ds) != 1 or None in ds:
                    bad("depth/" + short, s["s"], "%s sets %s to %s" % (fn.path, m, show(v)))
                    return
                d = ds.pop()
                self.put(st, "delta", max(-3, min(3, self.get(st, "delta") + d)))
                if d > 0:
                    self.put(st, "guard", False)

            def call(self, I, st, ctx):
                c = ctx.callee
                if c is None:
                    return None
                if c.trait == handler:
                    seen["handler"] += 1
                    if recursive and not self.get(st, "guard"):
                        bad("guard/" + short, ctx.span, "%s: on a path to here, the include handler is called although the depth has no upper bound" % fn.path)
                if c.path == fn.path:
                    seen["calls"] += 1
                    calls.append(ctx.span)
                    if not self.get(st, "guard"):
                        bad("guard/" + short, ctx.span, "%s: on a path to here, it calls itself although the depth has no upper bound" % fn.path)
                    if kind == "field":
                        if self.get(st, "delta") <= 0:
                            bad("depth/" + short, ctx.span, "%s: on a path to here, it calls itself with the depth at which it was called" % fn.path)
                    else:
                        x = plain(ctx.args[m - 1])
                        if not (x.op == "bin" and x.a[0].startswith("Add") and x.a[2].op == "const" and x.a[2].a[1] > 0 and is_measure(I, x.a[1])):
                            bad("depth/" + short, ctx.span, "%s calls itself with the depth %s" % (fn.path, show(x)))
                    return I.opaque(st, ctx, ctx.fr)
                return None

            def flagkey(self, I, st, fr):
                return [st.ps]

        I = Interp(p, C())
        c = I.client
        rets = I.run(fn, ps=frozenset({("delta", 0), ("guard", False)}))
        if kind == "field":
            for st, v in rets:
                if c.get(st, "delta") != 0:
                    bad("depth/" + short, fn.span, "%s: on a path to its end, %s is not back at its value on entry" % (fn.path, m))
        if kind == "param" or seen["changed"]:
            results.append((len(problems), problems, m, seen))
    rep.ob("recursion/" + short, loc(fn.span))
    if not recursive:
        return
    if not results:
        rep.bad("recursion/" + short, fn.span, "%s calls itself, and no number grows with the depth" % fn.path)
        return
    results.sort(key=lambda x: x[0])
    _, problems, m, seen = results[0]
    rep.ob("measure/%s" % m, loc(fn.span))
    for (key, where), msg in sorted(problems.items()):
        rep.bad(key, where, msg)
    rep.floor("recursive calls", seen["calls"], 1)


def bounded(I, x):
    return all(y.op == "const" for y in I.phi_inputs(x))


def passthroughs(p, rep):
    """(2)"""
    n = m = 0
    for fn in p.fns.values():
        if fn.kind != "fn" or fn.derived or not fn.self_adt or fn.name != "replace_append":
            continue
        a = fn.self_adt
        d = p.adts.get(a)
        if d is None or d["kind"] != "struct":
            continue
        lims = [f["name"] for f in p.fields(a) if p.types[f["ty"]].k == "uint"]
        store = [f for f in p.fields(a) if (p.types[f["ty"]].adt() or "").endswith("::Passthroughs")]
        if not store or any(p.types[f["ty"]].k == "ref" and p.types[f["ty"]].mut for f in store):
            continue
        n += 1
        key = "restore/" + p.last(a)
        problems = {}
        seen = {"nested": 0, "got": 0}

        def is_limit(x):
            return x.op == "f" and x.a[2] in lims and x.a[0].op == "p" and x.a[0].a[0] == 1

        class C(Policy):
            into = {f.path for f in p.fns.values() if f.self_adt == a and f.path != fn.path}

            def branch(self, I, st, fr, bi, term, value):
                for x in I.phi_inputs(term):
                    u = upper(x, value)
                    if u and u[2] and is_limit(u[1]):
                        st.ps = frozenset({u[0]})

            def aggregate(self, I, st, fr, bi, span, t):
                if t.a[0] != a:
                    return
                seen["nested"] += 1
                rep.ob(key, loc(span))
                vals = dict(zip(t.a[2], t.a[3]))
                if not lims:
                    problems[loc(span)] = "%s starts a restoration within a restoration without a limit" % fn.path
                for l in lims:
                    for x in I.phi_inputs(vals[l]):
                        if x not in st.ps and vals[l] not in st.ps:
                            problems[loc(span)] = "%s: on a path to here, a restoration within a restoration gets the limit %s, not tested to be below its own" % (fn.path, show(x))

            def call(self, I, st, ctx):
                c = ctx.callee
                if c is not None and c.name in ("apply", "rendered") and ctx.args and c.local and c.name == "apply":
                    for x in I.phi_inputs(ctx.args[0]):
                        i = index_of(x)
                        if i is not None:
                            seen["got"] += 1
                            rep.ob("use/" + p.last(a), loc(ctx.span))
                            if i not in st.ps:
                                problems[loc(ctx.span)] = "%s: on a path to here, passthrough %s is restored, which was not tested to be below the limit" % (fn.path, show(i))
                return None

            def flagkey(self, I, st, fr):
                return [st.ps]

        def index_of(x):
            while x.op == "f":
                x = x.a[0]
            if x.op == "call" and x.a[0].split("::")[-1] in ("get", "index") and len(x.a[1]) == 2:
                return x.a[1][1]
            return None

        # only those that restore within a restoration
        if not any(s.get("r", {}).get("k") == "agg" and norm(s["r"].get("d", "")) == a
                   for g in p.fns.values() if g.path in reach_local(p, fn.path) for _, b in g.live_blocks() for s in b["st"]):
            continue
        Interp(p, C()).run(fn, ps=frozenset())
        m += seen["nested"]
        for where, msg in sorted(problems.items()):
            rep.bad(key, where, msg)
        if not seen["nested"]:
            rep.bad(key, fn.span, "%s starts a restoration in a function that is not understood" % fn.path)
    rep.floor("replacers that restore passthroughs", n, 1)
    # the limit is set where a replacer is made, and nowhere else
    for fn in p.fns.values():
        for _, b in fn.live_blocks():
            for s in b["st"]:
                for e in s["p"].get("p", [])[-1:]:
                    if isinstance(e, dict) and p.last(norm(e.get("adt", ""))) == "PassthroughRestoreReplacer":
                        rep.bad("limit/" + p.last(fn.path), s["s"], "%s changes a replacer that restores passthroughs" % fn.path)


def reach_local(p, path):
    """This function, its closures, and unexported helpers that it calls."""
    out, todo = {path}, [path]
    while todo:
        x = todo.pop()
        for y in p.edges().get(x, ()):
            if y not in out and (y.startswith(path) or y in p.fns and p.fns[y].self_adt == p.fns[path].self_adt):
                out.add(y)
                todo.append(y)
    return out


def limited(p):
    """The functions whose recursion this check bounds."""
    handler = {t for t in p.traits if p.last(t) == "IncludeFileHandler"}
    sites = {}
    for fn in p.fns.values():
        for bi, t, c in fn.calls():
            if c is not None and c.trait in handler:
                sites.setdefault(fn.path.split("::{closure")[0], []).append(t["s"])
    out = set(roots_of(p, sites))
    for fn in p.fns.values():
        if fn.kind != "fn" or fn.name != "replace_append" or not fn.self_adt or p.adts.get(fn.self_adt, {}).get("kind") != "struct":
            continue
        store = [f for f in p.fields(fn.self_adt) if (p.types[f["ty"]].adt() or "").endswith("::Passthroughs")]
        if store and not any(p.types[f["ty"]].k == "ref" and p.types[f["ty"]].mut for f in store):
            out.add(fn.path)
    return out
