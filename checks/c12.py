"""For every field of the parser (other than the table of attributes) that
parsing can change, an interprocedural dataflow analysis of the functions that
can reach an access of it decides one of: (a) parsing always ends with the
field as the constructor made it, or emptied, and an emptied field is refilled
before anything else looks into it; (b) parsing assigns the field before it
reads it, on every path. Functions that access the field are interpreted path
by path; those in between are summarized by dataflow over their control flow.
No part of the parser has interior mutability."""

from checks.common import *
from checks.c13 import roots_of
from checks.attrs import Attrs, base_fn
from engine.interp import Interp, Policy, T, known_fns, show

TECH = "interprocedural dataflow over MIR (reset before read, restored at exit), path-sensitive in the functions that access a field"
NOTE = "All fields of the parser and all functions reachable from its parse operation, on all paths."

S, N, I_, E = "as before", "set while parsing", "initial", "emptied"
TAKES = {"take"}
FILLS = {"get_or_insert_with", "get_or_insert", "get_or_insert_default", "insert", "replace"}
CELLS = ("cell::Cell<", "cell::RefCell<", "OnceCell<", "OnceLock<", "Mutex<", "RwLock<", "atomic::Atomic", "UnsafeCell<")


class Field:
    def __init__(self, p, parser, name, init):
        self.p, self.parser, self.name, self.init = p, parser, name, init
        self.sum = {}
        self._acc = {}

    def elem(self, pl):
        """Position after the field in a place's projections, or None."""
        for i, e in enumerate(pl.get("p", [])):
            if isinstance(e, dict) and "f" in e and e.get("n") == self.name and norm(e.get("adt", "")) == self.parser:
                return i + 1
        return None

    def accesses(self, fn, bi, s):
        """('read' | 'look' | 'mut' | 'take' | 'part') of the statement, apart
        from plain assignments of the field."""
        k = (fn.path, bi, id(s))
        if k not in self._acc:
            self._acc[k] = list(self._accesses(fn, s))
        return self._acc[k]

    def _accesses(self, fn, s):
        r = s.get("r")
        if r is not None:
            for pl in operand_places(r):
                i = self.elem(pl)
                if i is None:
                    continue
                if r["k"] == "discr" and len(pl["p"]) == i:
                    yield "look"
                elif r["k"] in ("ref", "rawptr") and not s["p"].get("p"):
                    names = self.users(fn, s["p"]["l"])
                    if r.get("mut"):
                        whole = names and len(pl["p"]) == i
                        yield "take" if whole and names <= TAKES else "fill" if whole and names <= FILLS else "mut"
                    else:
                        yield "look" if names and names <= {"is_none", "is_some"} and len(pl["p"]) == i else "read"
                else:
                    yield "read"
        i = self.elem(s["p"])
        if i is not None and len(s["p"]["p"]) > i:
            yield "part"

    def users(self, fn, l):
        """Names of the calls that get this reference as first argument; a
        reference used in another way counts as '?'."""
        out = set()
        for bi, b in fn.live_blocks():
            for s in b["st"]:
                if "r" in s and any(x["l"] == l for x in operand_places(s["r"])):
                    if s["r"]["k"] in ("use", "ref") and not s["p"].get("p"):
                        out |= self.users(fn, s["p"]["l"])
                    else:
                        out.add("?")
            t = b["t"]
            if t["k"] == "call":
                for i, a in enumerate(t["a"]):
                    if any(x["l"] == l for x in operand_places(a)):
                        c = fn.callee(t)
                        out.add(c.name if c is not None and i == 0 and not c.local else "?")
        return out

    def direct(self):
        out = set()
        for fn in self.p.fns.values():
            if fn.derived:
                continue
            for bi, b in fn.live_blocks():
                for s in b["st"]:
                    if self.elem(s["p"]) is not None or any(self.elem(x) is not None for x in operand_places(s.get("r", {}))):
                        out.add(fn.path)
                for a in (b["t"].get("a") or []) if b["t"]["k"] == "call" else []:
                    if any(self.elem(x) is not None for x in operand_places(a)):
                        out.add(fn.path)
                if b["t"]["k"] == "call" and self.elem(b["t"]["p"]) is not None:
                    out.add(fn.path)
        return out

    # ------------------------------------------------------------------

    def step(self, status, acc, where, reads):
        """(status after, or None where nothing is possible)"""
        if acc in ("read", "mut", "part"):
            if status in (S, E):
                reads.setdefault((status, where))
            return status if acc == "read" else N
        if acc == "look":
            if status == S:
                reads.setdefault(("look", where))
            return status
        if acc in ("take", "fill"):
            if status == S:
                reads.setdefault(("look", where))
            return E if acc == "take" else N
        return status

    def apply(self, status, callee, reads):
        exits, rs = self.sum.get(callee, (frozenset(), {}))
        for kind, where in rs:
            if kind == "look" and status == S:
                reads.setdefault(("look", where))
            elif kind == S and status in (S, E):
                reads.setdefault((status, where))
            elif kind == E:
                reads.setdefault((E, where))
        return {status if x == S else x for x in exits}

    def solve(self, root):
        p = self.p
        e = p.edges()
        self.acc = self.direct()
        # functions that can reach an access
        rev = {}
        for a, bs in e.items():
            for b in bs:
                rev.setdefault(b, set()).add(a)
        T_, todo = set(), list(self.acc)
        while todo:
            x = todo.pop()
            if x not in T_:
                T_.add(x)
                todo.extend(rev.get(x, ()))
        T_ &= p.reach([root])
        self.T = {f for f in T_ if not p.fns[f].derived}
        doc = {f.path for f in p.fns.values() if f.self_adt == p.adt("Document") and f.name == "parse"}
        self.exact = (set(roots_of(p, self.acc)) | {root} | doc) & self.T
        changed = True
        rounds = 0
        while changed:
            rounds += 1
            if rounds > 12:
                raise FactsError("no fixpoint for " + self.name)
            changed = False
            for f in sorted(self.T, key=lambda f: f not in self.acc):
                if f not in self.exact and base_fn(f) in self.exact:
                    continue            # analysed in place
                exits, reads = self.interpret(f, root) if f in self.exact else self.flow(f)
                fn = p.fns[f]
                if fn.kind == "fn" and not any(x.k == "ref" and x.mut and any(y.adt() == self.parser for y in x.walk())
                                               for a in fn.locals[1:fn.argc + 1] for x in a.walk()) and f != root:
                    exits = frozenset([S]) if exits else exits
                old = self.sum.get(f)
                if old is None or old[0] != exits or set(old[1]) != set(reads):
                    self.sum[f] = (exits, reads)
                    changed = True
        return self.sum[root]

    def flow(self, f):
        """Path-insensitive summary of a function that only passes the parser on."""
        p = self.p
        fn = p.fns[f]
        reads = {}
        at = {0: {S}}
        todo = [0]
        exits = set()
        while todo:
            bi = todo.pop()
            sts = set(at[bi])
            b = fn.blocks[bi]
            for s in b["st"]:
                for a in self.accesses(fn, bi, s):
                    sts = {self.step(x, a, loc(s["s"]), reads) for x in sts}
                i = self.elem(s["p"])
                if i is not None and len(s["p"]["p"]) == i and "r" in s:
                    sts = {N}
            t = b["t"]
            if t["k"] == "call":
                outs = set()
                tgts = self.targets(fn, t)
                c = fn.callee(t)
                for x in sts:
                    if c is not None and c.path in self.T:
                        cur = self.apply(x, c.path, reads)
                    else:
                        cur = {x}
                    # closures and methods that the callee may run
                    more = True
                    while more:
                        more = False
                        for g in tgts:
                            for y in list(cur):
                                n = self.apply(y, g, reads) - cur
                                if n:
                                    cur |= n
                                    more = True
                    outs |= cur
                sts = outs
            if t["k"] == "return":
                exits |= sts
            for n in fn.succ(bi):
                if fn.blocks[n]["cleanup"]:
                    continue
                if not sts <= at.get(n, set()):
                    at[n] = at.get(n, set()) | sts
                    todo.append(n)
        return frozenset(exits), reads

    def targets(self, fn, t):
        c = fn.callee(t)
        out = set()
        for a in t["a"]:
            for pl in operand_places(a):
                if pl.get("p"):
                    continue
                for x in fn.locals[pl["l"]].walk():
                    if x.k in ("closure", "fndef") and x.d in self.T:
                        out.add(x.d)
            if "k" in a:
                x = self.p.types[a["k"]["t"]]
                if x.k in ("closure", "fndef") and x.d in self.T:
                    out.add(x.d)
        if c is not None and c.kind in ("virtual", "unresolved"):
            out |= {f for f in self.T if self.p.fns[f].trait and c.decl.endswith("::" + self.p.fns[f].name)
                    and c.decl.startswith(self.p.fns[f].trait.split("<")[0])}
        return out

    def interpret(self, f, root):
        p = self.p
        F = self
        reads = {}

        def status(st):
            return next(iter(st.ps))

        class C(Policy):
            def enter(self, I, ctx, fn, depth):
                if fn.path not in known_fns():
                    return True
                # `Cell::new(owner, |o| ...)`: runs the closure itself
                return depth < 4 and len(fn.blocks) < 60 and any(
                    a.k == "closure" and a.d in F.T for a in (ctx.types or []) if a is not None)

            def statement(self, I, st, fr, bi, s):
                for a in F.accesses(fr.fn, bi, s):
                    st.ps = frozenset([F.step(status(st), a, loc(s["s"]), reads)])

            def assign(self, I, st, fr, bi, span, lv, v):
                b = fr.fn.blocks[bi]
                pls = [s["p"] for s in b["st"] if s["s"] is span]
                if b["t"]["k"] == "call" and b["t"]["s"] is span:
                    pls.append(b["t"]["p"])
                if any(F.elem(pl) == len(pl.get("p", [])) for pl in pls):
                    st.ps = frozenset([I_ if F.initial(I, st, v) else N])

            def branch(self, I, st, fr, bi, term, value):
                if f == root and status(st) == S and value in ("Some", "None") and all(
                        x.op == "f" and x.a[2] == F.name for x in I.phi_inputs(term)):
                    st.ps = frozenset([("maybe " + I_) if value == "Some" else E])

            def call(self, I, st, ctx):
                if ctx.callee is not None and ctx.callee.kind != "item":
                    return None
                if ctx.path not in F.T or I.may_enter(ctx.fr, ctx, p.fns[ctx.path]):
                    return None
                out = []
                for x in sorted(F.apply(status(st), ctx.path, reads)):
                    s2 = st.copy()
                    s2.ps = frozenset([x])
                    out += I.opaque(s2, ctx, ctx.fr)
                return out

        I = Interp(p, C())
        exits = set()
        for st, v in I.run(p.fns[f], ps=frozenset([S])):
            exits.add(status(st))
        return frozenset(exits), reads

    def initial(self, I, st, v):
        vs = I.phi_inputs(I.deep(st, v))
        return all(shape(x) in self.init for x in vs)


def shape(t):
    """A term without call sites."""
    if t.op == "call":
        return ("call", t.a[0], tuple(shape(x) for x in t.a[1]))
    if t.op in ("agg", "tuple", "array"):
        return (t.op,) + tuple(shape(x) if hasattr(x, "op") else tuple(shape(y) if hasattr(y, "op") else y for y in x)
                               if isinstance(x, tuple) else x for x in t.a)
    return repr(t)


def check(p, rep):
    A = Attrs(p)
    parser = A.parser
    root = p.method("Parser", "parse").path
    # initial values
    init = {}
    for fn in p.fns.values():
        if fn.derived or fn.kind != "fn" or fn.argc:
            continue
        for bi, b in fn.live_blocks():
            for s in b["st"]:
                r = s.get("r")
                if r and r["k"] == "agg" and norm(r.get("d", "")) == parser:
                    class D(Policy):
                        pass
                    I = Interp(p, D())
                    for st, v in I.run(fn, ps=frozenset()):
                        for x in I.phi_inputs(v):
                            if x.op == "agg" and x.a[0] == parser:
                                for n, y in zip(x.a[2], x.a[3]):
                                    init.setdefault(n, set()).update(shape(z) for z in I.phi_inputs(y))
    if not init:
        raise FactsError("no constructor of the parser was found")
    reach = p.reach([root])
    n = 0
    for i, f in enumerate(p.fields(parser)):
        name = f["name"]
        ty = p.types[f["ty"]]
        rep.ob("interior/" + name)
        if any(c in ty.s for c in CELLS):
            rep.bad("interior/" + name, p.fns[root].span, "the parser's field %s has interior mutability (%s)" % (name, ty.s))
        if name == A.table:
            continue
        F = Field(p, parser, name, init.get(name, set()))
        rep.ob("field/" + name)
        writers = {g for g in F.direct() & reach if writes(F, p.fns[g])}
        if not writers:
            rep.count("fields that parsing does not change")
            continue
        n += 1
        exits, reads = F.solve(root)
        key = "state/" + name
        for g in sorted(F.T):
            rep.ob("%s/%s" % (key, g), "exits: " + ", ".join(sorted(F.sum.get(g, (["in place"],))[0])))
        exits = {I_ if x == "maybe " + I_ else x for x in exits}
        rep.notes.append("%s: at exit %s; written by %s" % (name, ", ".join(sorted(exits)), ", ".join(sorted(writers))))
        if exits <= {S, I_, E}:
            if E in exits:
                for kind, where in sorted(reads):
                    if kind in (S, E):
                        rep.bad(key, where, "the parser's %s is used here where it may still be empty from an earlier document" % name)
        else:
            for kind, where in sorted(reads):
                if kind in (S, "look"):
                    rep.bad(key, where, "the parser's %s is read here where it may still have its value from an earlier document (it is changed by %s, and not always restored)" % (
                        name, ", ".join(sorted(writers))))
    rep.floor("fields that parsing changes", n, 1)


def writes(F, fn):
    for bi, b in fn.live_blocks():
        for s in b["st"]:
            if F.elem(s["p"]) is not None:
                return True
            if any(a in ("mut", "take", "part", "fill") for a in F.accesses(fn, bi, s)):
                return True
        if b["t"]["k"] == "call" and F.elem(b["t"]["p"]) is not None:
            return True
    return False
