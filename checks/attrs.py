"""The operations that write attribute values, analysed path by path."""

from checks.common import *
from checks.c13 import roots_of, optype
from engine.interp import Interp, Policy, T, OPTION, known_fns, show

#: where an attribute may be changed, by the place of the assignment
ALLOWED = {
    "header": frozenset(["Anywhere", "ApiOrHeader"]),
    "body": frozenset(["Anywhere", "ApiOrDocumentBody"]),
}
HASHREAD = {"get", "contains_key", "get_key_value", "is_empty", "len", "iter", "keys", "values"}


def base_fn(path):
    return re.sub(r"(::\{closure#\d+\})+$", "", path)


class Attrs:
    def __init__(self, p):
        self.p = p
        self.val = p.adt("AttributeValue")
        self.ctx = p.adt("ModificationContext")
        self.parser = p.adt("Parser")
        self.wt = p.adt("WarningType")
        if set(p.variants(self.ctx)) != {"Anywhere", "ApiOnly", "ApiOrHeader", "ApiOrDocumentBody"}:
            raise FactsError("ModificationContext has the variants %s" % p.variants(self.ctx))
        fs = [f["name"] for f in p.fields(self.parser) if self.is_table(p.types[f["ty"]])]
        if len(fs) != 1:
            raise FactsError("the parser's table of attributes: found %s" % fs)
        self.table = fs[0]
        #: function -> [(span, operation)] for each access that may write
        self.writers = {}
        for fn in p.fns.values():
            if fn.derived:
                continue
            for bi, t, c in fn.calls():
                for a in t["a"]:
                    ty = optype(p, fn, a)
                    if ty is not None and ty.k == "ref" and ty.mut and self.is_table(ty):
                        own = not any(l.adt() == self.parser for l in fn.locals)
                        self.writers.setdefault(fn.path, []).append((t["s"], c, own))
            for bi, b in fn.live_blocks():
                for s in b["st"]:
                    pr = s["p"].get("p", [])
                    if pr and isinstance(pr[-1], dict) and "f" in pr[-1] and norm(pr[-1].get("adt", "")) == self.parser \
                            and pr[-1].get("n") == self.table:
                        self.writers.setdefault(fn.path, []).append((s["s"], None, False))
        #: those that fill a table of their own, not a parser's
        self.fresh = {f for f, ws in self.writers.items() if all(w[2] for w in ws)}

    def is_table(self, ty):
        t = ty.peel()
        return t.k == "adt" and "HashMap" in t.d and any(x.k == "adt" and x.d == self.val for x in t.walk())

    def roots(self):
        return roots_of(self.p, {base_fn(f) for f in self.writers if f not in self.fresh})

    def is_api(self, fn):
        return any(fn.locals[i + 1].adt() == self.ctx for i in range(fn.argc))

    def places(self, root):
        """Where the calls of a writer are: {(place, calling function, span)}."""
        p = self.p
        if not hasattr(self, "_reach"):
            self._reach = {
                "header": p.reach([p.method("Header", "parse").path]),
                "body": p.reach([p.method("Block", "parse").path]),
                "preprocessor": p.reach([p.func("preprocess").path]),
            }
        out = set()
        for fn in p.fns.values():
            for bi, t, c in fn.calls():
                if c is not None and c.path == root:
                    pl = [k for k, v in self._reach.items() if fn.path in v]
                    for k in pl or ["?"]:
                        out.add((k, fn.path, loc(t["s"])))
        return out


class Write:
    """One write of an attribute on one path."""

    def __init__(self, span, key, val, lookup, present, allowed, op, facts=None):
        self.span, self.key, self.val, self.lookup = span, key, val, lookup
        self.present, self.allowed, self.op = present, allowed, op
        self.facts = facts or {}


class Paths(Policy):
    """Interprets one writing function: events are kept in `writes`, by path
    in the property state."""

    def __init__(self, A, root):
        self.A = A
        self.root = root
        self.writes = []
        #: private readers of the table are analysed in place
        self.into = {f.path for f in A.p.fns.values() if f.self_adt == A.parser and not f.public and f.path not in A.writers
                     and f.path != root and f.locals[0].adt() == A.ctx}

    def existing(self, I, st, key_table, key):
        return T("call", "lookup", (key_table, key), ())

    def call(self, I, st, ctx):
        A = self.A
        c = ctx.callee
        if c is None or not ctx.types or ctx.types[0] is None or not A.is_table(ctx.types[0]):
            if c is not None and c.name in ("push", "extend", "insert", "push_back"):
                for x in I.deepterms(ctx.args[-1]):
                    if x.op == "agg" and x.a[0] == A.wt and x.a[1] == "AttributeValueIsLocked":
                        st.ps = st.ps | {"warned"}
            return None
        if c.name == "get":
            return [(st, self.existing(I, st, ctx.args[0], ctx.args[1]))]
        if c.name == "contains_key":
            return [(st, T("isv", self.existing(I, st, ctx.args[0], ctx.args[1]), "Some", OPTION))]
        if c.name == "insert" and len(ctx.args) == 3:
            key, val = ctx.args[1], ctx.args[2]
            present, allowed = self.state_of(I, st, ctx.args[0], key)
            self.writes.append(Write(ctx.span, key, val, self.existing(I, st, ctx.args[0], key), present, allowed, "insert", st.facts))
            st.ps = st.ps | {("written", present, allowed)}
            return None
        if c.name in HASHREAD or not ctx.types[0].mut:
            return None
        self.writes.append(Write(ctx.span, None, None, None, None, None, c.name))
        return None

    def state_of(self, I, st, table, key):
        """(whether the attribute may exist already, contexts it may have)"""
        ks = set(map(str, I.idents(key)))
        pres = frozenset(["Some", "None"])
        ctxs = frozenset(self.A.p.variants(self.A.ctx))
        for t, v in st.facts.items():
            if not isinstance(v, frozenset):
                continue
            for x in I.phi_inputs(t):
                if x.op == "call" and x.a[0] == "lookup" and set(map(str, I.idents(x.a[1][1]))) == ks:
                    pres = pres & v
                elif x.op == "f" and x.a[0].op == "f" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0] == "lookup" \
                        and set(map(str, I.idents(x.a[0].a[0].a[1][1]))) == ks and v <= set(self.A.p.variants(self.A.ctx)):
                    ctxs = ctxs & v
        return pres, (ctxs if "Some" in pres else frozenset())

    def flagkey(self, I, st, fr):
        return [tuple(sorted((repr(t), tuple(sorted(v))) for t, v in st.facts.items()
                             if isinstance(v, frozenset) and "lookup" in repr(t)))]


def analyse(A, r):
    """(writes, [(state, value)], the final knowledge about the attribute)"""
    fn = A.p.fns[r]
    c = Paths(A, r)
    I = Interp(A.p, c)
    rets = I.run(fn, ps=frozenset())
    return c, I, rets
