"""A path-sensitive abstract interpreter over MIR.

The domain: values are terms (how a value was obtained: parameter, constant,
field of, result of call ..., aggregate); the store maps locations to terms;
path facts record which enum variants / booleans a term is known to have. At
join points, states that agree on the client's property state and on the known
variants of live locals are merged; a location whose values differ becomes a
phi term of that join point, so loops reach a fixpoint. Local helper functions
and closures are analysed in place, so extracting a helper changes nothing.

No solver is involved: a branch is infeasible only if the term it tests is
known to have another variant."""

from .facts import norm, FactsError

# ---------------------------------------------------------------------------
# Terms


class Term:
    __slots__ = ("op", "a", "id", "depth")
    table = {}

    def __hash__(self):
        return self.id

    def __repr__(self):
        return show(self)


def T(op, *a):
    key = (op,) + a
    t = Term.table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        t.id = len(Term.table)
        t.depth = 1 + max([x.depth for x in flat(a)], default=0)
        Term.table[key] = t
    return t


def flat(a):
    for x in a:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, tuple):
            yield from flat(x)


# ops:
#  const(value)            value: python scalar or str/bytes (type-tagged)
#  p(i)                    parameter of the root function
#  f(base, variant, name)  field
#  call(path, args, site)  result of a call that was not entered
#  mut(path, idx, args, site)  args[idx] after that call, which may change it
#  agg(adt, variant, names, values)
#  tuple(values) array(values) clo(path, values)
#  ref(root, path)         address of a location
#  fn(path) static(path) constitem(path)
#  bin(op, a, b) un(op, a) cast(a) discr(a)
#  isv(a, variant)         boolean: a has this variant
#  phi(key)                merge; inputs are in Interp.phis
#  idx(base, index)
#  unk(tag)

def const(v):
    return T("const", type(v).__name__, v)


def cval(t):
    """Python value of a constant term, else None."""
    return t.a[1] if t.op == "const" else None


UNIT = T("tuple", ())


def show(t, d=0):
    if not isinstance(t, Term):
        return str(t)
    if d > 5:
        return "…"
    op, a = t.op, t.a
    if op == "const":
        return repr(a[1])
    if op == "p":
        return "arg%d" % a[0]
    if op == "f":
        return "%s.%s" % (show(a[0], d + 1), ("%s#" % a[1] if a[1] else "") + str(a[2]))
    if op == "call":
        return "%s(%s)" % (short(a[0]), ", ".join(show(x, d + 1) for x in a[1]))
    if op == "mut":
        return "after %s(%s)" % (short(a[0]), ", ".join(("*" if i == a[1] else "") + show(x, d + 1) for i, x in enumerate(a[2])))
    if op == "agg":
        return "%s::%s{%s}" % (short(a[0]), a[1], ", ".join("%s: %s" % (n, show(v, d + 1)) for n, v in zip(a[2], a[3])))
    if op in ("tuple", "array"):
        return "(%s)" % ", ".join(show(v, d + 1) for v in a[0])
    if op == "phi":
        return "phi%d" % t.id
    if op == "ref":
        return "&%s%s" % (show(a[0], d + 1) if isinstance(a[0], Term) else a[0][-1], "".join("." + str(x) for x in a[1]))
    return "%s(%s)" % (op, ", ".join(show(x, d + 1) if isinstance(x, Term) else str(x) for x in a))


def short(p):
    return p.split("::")[-1] if not p.startswith("<") else p.split(" as ")[0].split("::")[-1].rstrip(">") + "::" + p.split("::")[-1]


def subterms(t, seen=None):
    seen = seen if seen is not None else set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(flat(x.a))


# ---------------------------------------------------------------------------
# State


class State:
    __slots__ = ("store", "facts", "ps")

    def __init__(self, store=None, facts=None, ps=None):
        self.store = store if store is not None else {}
        self.facts = facts if facts is not None else {}
        self.ps = ps

    def copy(self):
        return State(dict(self.store), dict(self.facts), self.ps)


class Infeasible(Exception):
    pass


OPTION = "core::option::Option"
RESULT = "core::result::Result"
CFLOW = "core::ops::control_flow::ControlFlow"
BOXLIKE = ("alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull")

ORDER = {OPTION: ["None", "Some"], RESULT: ["Ok", "Err"], CFLOW: ["Continue", "Break"]}


def some(x):
    return T("agg", OPTION, "Some", ("0",), (x,))


NONE = T("agg", OPTION, "None", (), ())


def rootkey(root):
    return root


class Client:
    """What a check supplies."""

    #: functions never entered, by path
    opaque = frozenset()
    max_depth = 8
    max_blocks = 400
    #: states kept apart per block before they are merged regardless of flags
    max_states = 64

    def enter(self, interp, callee, fn, depth):
        """Whether a call of a local function is analysed in place."""
        return True

    def call(self, interp, st, ctx):
        """Hook before a call. Returns None (default treatment) or a list of
        (state, value) results."""
        return None

    def after(self, interp, st, ctx, value):
        """Hook after an opaque call; may change st.ps."""

    # Hook (interp, st, ctx, value) for each outcome of a call with a model; may change st.ps.
    modelled = None

    def aggregate(self, interp, st, fr, bi, span, term):
        pass

    def entering(self, interp, st, fr, bi):
        """Hook when a state reaches a block, before states are merged."""

    def statement(self, interp, st, fr, bi, s):
        """Hook before a statement (as in the facts); may change st.ps."""

    def assign(self, interp, st, fr, bi, span, lv, term):
        pass

    def panic(self, interp, st, fr, bi, term):
        pass

    def branch(self, interp, st, fr, bi, term, value):
        """A switch on `term` took the branch `value` (bool or variant or
        None). May raise Infeasible or change st.ps."""

    #: keep states apart that know different answers in a boolean variable
    keep_answers = False

    def flagkey(self, interp, st, fr):
        return ()

    #: hook (interp, frame, head, state at the head, state at the end) for
    #: every edge that repeats a loop
    backedge = None


_known = None


def known_fns():
    """Functions that existed when the checks were written. A function that is
    not among them (an extracted helper, a renamed function) is analysed in
    place of its calls, whatever the check."""
    global _known
    if _known is None:
        import os
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_fns.txt")) as f:
            _known = frozenset(f.read().splitlines())
    return _known


class Policy(Client):
    """Enters unknown functions, and known ones named by the check: `into` is
    a set of paths, or a predicate on functions."""

    into = frozenset()

    def enter(self, interp, ctx, fn, depth):
        if fn.path not in known_fns():
            return True
        return self.into(fn) if callable(self.into) else fn.path in self.into


class Ctx:
    """One call site being interpreted."""
    __slots__ = ("fr", "bi", "term", "callee", "path", "raw", "args", "site", "span", "types")


class Frame:
    __slots__ = ("fn", "id", "depth", "stack", "live", "chain")

    def __init__(self, fn, id, depth, stack, chain):
        self.fn = fn
        self.id = id
        self.depth = depth
        self.stack = stack
        self.chain = chain
        self.live = liveness(fn)


_live = {}


def liveness(fn):
    """Per block: locals that may still be read, or whose address was taken."""
    r = _live.get(fn.path)
    if r is not None:
        return r
    n = len(fn.blocks)
    use = [set() for _ in range(n)]
    dfn = [set() for _ in range(n)]
    addr = set()

    def reads(pl, u, d):
        if pl["l"] not in d:
            u.add(pl["l"])
        for e in pl.get("p", []):
            if isinstance(e, dict) and "i" in e and e["i"] not in d:
                u.add(e["i"])

    def op(o, u, d):
        if "c" in o:
            reads(o["c"], u, d)
        elif "m" in o:
            reads(o["m"], u, d)

    for i, b in enumerate(fn.blocks):
        if b["cleanup"]:
            continue
        u, d = use[i], dfn[i]
        for s in b["st"]:
            r = s.get("r")
            if r:
                for k in ("o", "a", "b"):
                    x = r.get(k)
                    if isinstance(x, dict):
                        op(x, u, d)
                    elif isinstance(x, list):
                        for y in x:
                            op(y, u, d)
                if "p" in r:
                    reads(r["p"], u, d)
                    if r["k"] in ("ref", "rawptr") and not any(e == "*" for e in r["p"].get("p", [])):
                        addr.add(r["p"]["l"])
            p = s["p"]
            if p.get("p"):
                reads(p, u, d)
            else:
                d.add(p["l"])
        t = b["t"]
        if t["k"] == "call":
            for a in t["a"]:
                op(a, u, d)
            if "ptr" in t["f"]:
                op(t["f"]["ptr"], u, d)
            if t["p"].get("p"):
                reads(t["p"], u, d)
        elif t["k"] == "switch":
            op(t["d"], u, d)
        elif t["k"] == "assert":
            op(t["c"], u, d)
        elif t["k"] == "return":
            u.add(0)
    live = [set() for _ in range(n)]
    changed = True
    order = list(range(n))[::-1]
    while changed:
        changed = False
        for i in order:
            if fn.blocks[i]["cleanup"]:
                continue
            out = set()
            for s in fn.succ(i):
                out |= live[s]
            x = use[i] | (out - dfn[i])
            if x != live[i]:
                live[i] = x
                changed = True
    r = ([l | addr for l in live], addr)
    _live[fn.path] = r
    return r


class Interp:
    def __init__(self, prog, client):
        self.prog = prog
        self.client = client
        self.merges = []
        self.phis = {}
        self.fresh = None
        self.events = {}
        self.visited_fns = set()
        self.steps = 0
        self.max_steps = 400000
        self._loops = {}

    # --- running ---------------------------------------------------------

    def run(self, fn, ps=None, args=None, facts=None):
        """Analyses `fn` as a root. Returns [(state, return value)]."""
        st = State(ps=ps)
        if facts:
            st.facts.update(facts)
        if args is None:
            args = [T("p", i) for i in range(1, fn.argc + 1)]
        return self.invoke(fn, args, st, depth=0, stack=(), chain=())

    def invoke(self, fn, args, st, depth, stack, chain):
        self.visited_fns.add(fn.path)
        fid = (fn.path,) + chain
        fr = Frame(fn, fid, depth, stack + (fn.path,), chain)
        st = st.copy()
        for i, a in enumerate(args):
            st.store[(("L", fid, i + 1), ())] = a
        exits = {}
        flow = Flow(self, fr, set(loop_heads(fn)), ())
        instates, work, push = flow.states, flow.work, flow.push

        push(0, st, None)
        rpo = _rpo(fn)
        while work:
            self.steps += 1
            if self.steps > self.max_steps:
                raise FactsError("analysis of %s does not converge" % fr.stack[0])
            work.sort(key=lambda k: -rpo[k[0]])
            key = work.pop()
            s = instates[key].copy()
            bi = key[0]
            for n, (succ, s2) in enumerate(self.block(fr, bi, s, key)):
                if succ == "return":
                    v = self.load(s2, ("L", fid, 0), ())
                    # The value may point into this frame: read through.
                    v = self.deframe(s2, v, fid)
                    for k in [k for k in s2.store if isinstance(k[0], tuple) and k[0][0] == "L" and k[0][1] == fid]:
                        del s2.store[k]
                    ek = (key, s2.ps, self.outcome(s2, v))
                    exits[ek] = (s2, v)
                else:
                    push(succ, s2, (key, n))
        if self.client.backedge is not None:
            self.replay(fr, instates, rpo)
        # Merge exits that agree on property state and outcome.
        merged = {}
        self.fresh = {}
        for (k, ps, tag), (s, v) in exits.items():
            mk = (ps, tag, _key(self.client.flagkey(self, s, fr)))
            if mk in merged:
                s0, v0 = merged[mk]
                sk = (fid, "exit", mk)
                s1 = self.join(s0, s, sk) or s0
                v1 = v0 if v0 is v else self.phi((sk, "ret"), v0, v)
                merged[mk] = (s1, v1)
            else:
                merged[mk] = (s, v)
        self.phis.update(self.fresh)
        self.fresh = None
        return list(merged.values())

    def replay(self, fr, instates, rpo):
        """Shows the client every edge that goes back to the head of a loop:
        one more iteration is analysed, starting from the state that holds at
        the head whenever the loop is entered or repeated."""
        for h, (back, body) in loop_heads(fr.fn).items():
            for hk in sorted((k for k in instates if k[0] == h), key=repr):
                head = instates[hk]
                flow = Flow(self, fr, set(loop_heads(fr.fn)) - {h}, ("again", hk))
                states, work = flow.states, flow.work
                flow.push(h, head.copy(), None)
                ends = {}
                while work:
                    self.steps += 1
                    if self.steps > self.max_steps:
                        raise FactsError("analysis of %s does not converge" % fr.stack[0])
                    work.sort(key=lambda k: -rpo[k[0]])
                    key = work.pop()
                    for k in [k for k in ends if k[0] == key]:
                        del ends[k]
                    for n, (succ, s2) in enumerate(self.block(fr, key[0], states[key].copy(), key)):
                        if succ == h:
                            self.prune(fr, h, s2)
                            ends[(key, n)] = s2
                        elif succ in body:
                            flow.push(succ, s2, (key, n))
                for s2 in ends.values():
                    self.client.backedge(self, fr, h, head, s2)

    def deframe(self, st, v, fid, d=0):
        if d > 6:
            return v
        if v.op == "ref" and isinstance(v.a[0], tuple) and v.a[0][1] == fid:
            return self.deframe(st, self.load(st, v.a[0], v.a[1]), fid, d + 1)
        if v.op == "agg" and any(x.op in ("ref", "agg", "tuple") for x in v.a[3]):
            return T("agg", v.a[0], v.a[1], v.a[2], tuple(self.deframe(st, x, fid, d + 1) for x in v.a[3]))
        if v.op == "tuple":
            return T("tuple", tuple(self.deframe(st, x, fid, d + 1) for x in v.a[0]))
        return v

    def tagof(self, st, v):
        if v.op == "agg" and self.is_enum(v.a[0]):
            inner = ()
            if v.a[1] in ("Some", "Ok", "Err") and v.a[3]:
                inner = self.tagof(st, v.a[3][0])
            return (v.a[0], v.a[1], inner)
        if v.op == "const" and v.a[0] == "bool":
            return v.a[1]
        if v.op == "tuple":
            return tuple(self.tagof(st, x) for x in v.a[0])
        if self.client.keep_answers and v.op in ("call", "isv", "un"):
            # a stored answer that this path knows
            b = self.known_bool(st, v)
            if b is not None:
                return b
        return ()

    def outcome(self, st, v):
        """What kind of value a function returns: results of different kinds
        are kept apart."""
        t = self.tagof(st, v)
        if t == () and v.op == "agg":
            fs = tuple(self.tagof(st, x) for x in v.a[3])
            if any(f != () and not isinstance(f, bool) for f in fs):
                return (v.a[0], fs)
        return t

    def is_enum(self, adt):
        a = self.prog.adts.get(adt)
        return (a is not None and a["kind"] == "enum") or adt in ORDER

    def prune(self, fr, bi, st):
        live, addr = fr.live
        dead = [k for k in st.store
                if isinstance(k[0], tuple) and k[0][0] == "L" and k[0][1] == fr.id
                and isinstance(k[0][2], int) and k[0][2] not in live[bi]]
        for k in dead:
            del st.store[k]

    def flags(self, fr, bi, st):
        live, addr = fr.live
        r = []
        for (root, path), v in st.store.items():
            if isinstance(root, tuple) and root[0] == "L" and root[1] == fr.id:
                tag = self.outcome(st, v) if root[2] == 0 and not path else self.tagof(st, v)
                if tag != ():
                    r.append((root[2], path, tag))
        r.sort(key=repr)
        return tuple(r) + tuple(self.client.flagkey(self, st, fr))

    def phi(self, key, *inputs):
        t = T("phi", key)
        s = (self.phis if self.fresh is None else self.fresh).setdefault(t, set())
        for x in inputs:
            if x is not t:
                s.add(x)
        return t

    def phi_inputs(self, t):
        """Terms that may flow into `t`, through nested phis and through
        fields of merged values."""
        if t.op not in ("phi", "f"):
            return {t}
        seen = set()
        out = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi":
                todo.extend(self.phis.get(x, ()))
            elif x.op == "f" and x.a[0].op in ("phi", "f", "agg", "tuple"):
                base = x.a[0]
                e = (x.a[1], x.a[2]) if x.a[1] else x.a[2]
                bs = self.phi_inputs(base) if base.op in ("phi", "f") else {base}
                if bs == {base} and base.op == "f":
                    out.add(x)
                    continue
                for b in bs:
                    if b.op == "agg" and x.a[1] and b.a[1] != x.a[1]:
                        continue            # another variant
                    y = self.proj1(b, e)
                    if y.op == "phi" or (y.op == "f" and y is not x and y.a[0].op == "phi"):
                        todo.append(y)
                    else:
                        out.add(y)
            else:
                out.add(x)
        return out

    def deepterms(self, t):
        """All terms in `t`, through merges."""
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            yield x
            if x.op == "phi":
                todo.extend(self.phis.get(x, ()))
            else:
                todo.extend(flat(x.a))

    def idents(self, t, d=0):
        """Names for the values `t` may stand for, that do not depend on where
        paths were merged: a call result is named by its call site."""
        out = set()
        for x in self.phi_inputs(t):
            if x.op in ("call", "mut"):
                out.add((x.op, x.a[0], x.a[-1] if x.a[-1] else x))
            elif x.op == "f" and d < 8:
                for y in self.idents(x.a[0], d + 1):
                    out.add(("f", y, x.a[1:]))
            else:
                out.add(x)
        return out

    def join(self, a, b, key):
        """The join, or None if it equals `a`."""
        store = dict(a.store)
        changed = False
        self.merges = []
        for k in list(store):
            if k not in b.store:
                v = store[k]
                other = self.default(k)
                if other is None or other is v:
                    if other is None:
                        del store[k]
                        changed = True
                    continue
                n = self.mergev(key, k, v, other)
                if n is not v:
                    store[k] = n
                    changed = True
                continue
            v, w = store[k], b.store[k]
            if v is not w:
                n = self.mergev(key, k, v, w)
                if n is not v:
                    store[k] = n
                    changed = True
        for k in b.store:
            if k not in a.store:
                other = self.default(k)
                if other is not None and other is not b.store[k]:
                    store[k] = self.mergev(key, k, other, b.store[k])
                    changed = True
        facts = {t: v for t, v in a.facts.items() if b.facts.get(t) == v}
        # A weaker fact both states imply.
        for t, v in a.facts.items():
            if t not in facts and t in b.facts:
                w = b.facts[t]
                if isinstance(v, frozenset) and isinstance(w, frozenset):
                    facts[t] = v | w
        # What is known about two values holds for what they are merged to.
        if self.merges and a.facts and b.facts:
            for t, v in a.facts.items():
                if t in facts:
                    continue
                for x, y, n in self.merges:
                    u = subst(t, x, y)
                    if u is not t and b.facts.get(u) == v:
                        facts[subst(t, x, n)] = v
        if facts != a.facts:
            changed = True
        if not changed:
            return None
        return State(store, facts, a.ps)

    def mergev(self, key, k, v, w):
        t = T("phi", (key, k))
        if self.fresh is not None:
            s = self.fresh.setdefault(t, set())
        else:
            s = self.phis.setdefault(t, set())
        if v is t or w is t:
            o = w if v is t else v
            s.add(o)
            self.merges.append((v, w, t))
            return t
        # Two aggregates of one kind: merge by field.
        if v.op == "agg" and w.op == "agg" and v.a[:3] == w.a[:3]:
            vals = tuple(x if x is y else self.mergev(key, (k, i), x, y)
                         for i, (x, y) in enumerate(zip(v.a[3], w.a[3])))
            return T("agg", v.a[0], v.a[1], v.a[2], vals)
        if v.op == "tuple" and w.op == "tuple" and len(v.a[0]) == len(w.a[0]):
            return T("tuple", tuple(x if x is y else self.mergev(key, (k, i), x, y)
                                    for i, (x, y) in enumerate(zip(v.a[0], w.a[0]))))
        s.add(v)
        s.add(w)
        self.merges.append((v, w, t))
        return t

    def default(self, k):
        root, path = k
        if isinstance(root, tuple):
            return None
        return self.project(root, path)

    # --- store -----------------------------------------------------------

    def project(self, t, path):
        for e in path:
            t = self.proj1(t, e)
        return t

    def proj1(self, t, e):
        variant, name = None, e
        if isinstance(e, tuple):
            if e[0] == "idx":
                return T("idx", t, e[1])
            variant, name = e
        if t.op == "agg":
            if name in t.a[2]:
                return t.a[3][t.a[2].index(name)]
        elif t.op in ("tuple", "array", "clo"):
            vals = t.a[0] if t.op != "clo" else t.a[1]
            if isinstance(name, str) and name.isdigit() and int(name) < len(vals):
                return vals[int(name)]
        elif t.op == "over":
            base, items = t.a
            sub = [(p, v) for p, v in items if p and p[0] == e]
            for p, v in sub:
                if len(p) == 1:
                    return v
            b = self.proj1(base, e)
            rest = tuple((p[1:], v) for p, v in sub)
            return T("over", b, rest) if rest else b
        elif t.op == "ref":
            pass
        return T("f", t, variant, name)

    def load(self, st, root, path):
        exact = st.store.get((root, path))
        best = None
        if exact is not None:
            v = exact
        else:
            v = None
            for n in range(len(path) - 1, -1, -1):
                x = st.store.get((root, path[:n]))
                if x is not None:
                    v = self.project(x, path[n:])
                    break
            if v is None:
                if isinstance(root, Term):
                    v = self.project(root, path)
                else:
                    v = self.project(T("unk", "uninit", root), path)
        subs = [(k[1][len(path):], w) for k, w in st.store.items()
                if k[0] == root and len(k[1]) > len(path) and k[1][:len(path)] == path]
        if subs:
            v = self.overlay(v, subs)
        return v

    def overlay(self, v, subs):
        if v.op == "agg":
            vals = dict(zip(v.a[2], v.a[3]))
            rest = []
            for p, w in sorted(subs, key=lambda x: len(x[0])):
                e = p[0]
                name = e[1] if isinstance(e, tuple) else e
                if name in vals:
                    vals[name] = w if len(p) == 1 else self.overlay(vals[name], [(p[1:], w)])
                else:
                    rest.append((p, w))
            v = T("agg", v.a[0], v.a[1], v.a[2], tuple(vals[n] for n in v.a[2]))
            if not rest:
                return v
            subs = rest
        if v.op == "tuple":
            vals = list(v.a[0])
            rest = []
            for p, w in sorted(subs, key=lambda x: len(x[0])):
                e = p[0]
                if isinstance(e, str) and e.isdigit() and int(e) < len(vals):
                    i = int(e)
                    vals[i] = w if len(p) == 1 else self.overlay(vals[i], [(p[1:], w)])
                else:
                    rest.append((p, w))
            v = T("tuple", tuple(vals))
            if not rest:
                return v
            subs = rest
        if v.op == "unk" and v.a[0] == "uninit" and all(
                len(p) == 1 and isinstance(p[0], str) and p[0].isdigit() for p, _ in subs):
            n = max(int(p[0]) for p, _ in subs) + 1
            vals = {int(p[0]): w for p, w in subs}
            if len(vals) == n:
                return T("tuple", tuple(vals[i] for i in range(n)))
        items = tuple(sorted(subs, key=lambda x: repr(x[0])))
        if v.op == "over":
            old = dict(v.a[1])
            for p, w in items:
                for q in list(old):
                    if q[:len(p)] == p:
                        del old[q]
                old[p] = w
            return T("over", v.a[0], tuple(sorted(old.items(), key=lambda x: repr(x[0]))))
        return T("over", v, items)

    def write(self, st, root, path, v):
        for k in [k for k in st.store if k[0] == root and len(k[1]) > len(path) and k[1][:len(path)] == path]:
            del st.store[k]
        st.store[(root, path)] = v

    # --- places and operands ---------------------------------------------

    def lvalue(self, fr, st, pl):
        root = ("L", fr.id, pl["l"])
        path = ()
        variant = None
        for e in pl.get("p", []):
            if e == "*":
                v = self.load(st, root, path)
                root, path = self.target(v)
                variant = None
            elif e == "?":
                pass
            elif "f" in e:
                adt = norm(e["adt"]) if "adt" in e else None
                if adt and adt.split("<")[0] in BOXLIKE:
                    continue
                name = e.get("n", str(e["f"]))
                if variant is not None:
                    path = path + ((variant, name),)
                else:
                    path = path + (name,)
                variant = None
            elif "d" in e:
                variant = e["d"]
            elif "i" in e:
                i = self.load(st, ("L", fr.id, e["i"]), ())
                path = path + (("idx", i),)
            elif "ci" in e:
                path = path + (("idx", const((-1 - e["ci"] + 1) if e["fe"] else e["ci"])),)
            elif "sub" in e:
                path = path + (("idx", T("const", "range", (e["sub"], e["to"], e["fe"]))),)
        return root, path

    def target(self, v):
        """Where a pointer value points."""
        if v.op == "ref":
            return v.a[0], v.a[1]
        return v, ()

    def addr(self, root, path):
        if isinstance(root, Term) and not path:
            return root
        return T("ref", root, path)

    def operand(self, fr, st, o):
        if "c" in o or "m" in o:
            pl = o.get("c") or o.get("m")
            root, path = self.lvalue(fr, st, pl)
            return self.load(st, root, path)
        if "k" in o:
            return self.constant(o["k"])
        return T("unk", "rt", str(o))

    def constant(self, k):
        if "fn" in k:
            f = k["fn"]
            return T("fn", norm(f.get("r") or f["d"]))
        if "promoted" in k:
            return self.promoted(norm(k["promoted"]))
        ty = self.prog.types[k["t"]]
        if ty.k == "closure":
            return T("clo", ty.d, ())
        if "v" in k:
            v = self.constval(k["v"], ty)
            if v is not None:
                if "const" in k and v.op not in ("const",):
                    return v
                return v
        if "const" in k:
            return T("constitem", norm(k["const"]))
        return T("unk", "const", ty.s)

    def constval(self, v, ty):
        if isinstance(v, (bool, int, str)):
            return const(v)
        if isinstance(v, dict):
            if "bytes" in v:
                return T("const", "bytes", bytes(v["bytes"]))
            if "static" in v:
                return T("static", norm(v["static"]))
            if "fnptr" in v:
                return T("fn", norm(v["fnptr"]))
            if "ref" in v:
                return self.constval(v["ref"], ty.inner if ty.k == "ref" else ty)
            if "variant" in v or "fields" in v:
                fs = [self.constval(x, ty) or T("unk", "const", str(i)) for i, x in enumerate(v["fields"])]
                if "adt" in v:
                    adt = norm(v["adt"])
                    a = self.prog.adts.get(adt)
                    names = tuple(str(i) for i in range(len(fs)))
                    if a:
                        for x in a["variants"]:
                            if x["name"] == v["variant"]:
                                names = tuple(f["name"] for f in x["fields"])
                    return T("agg", adt, v["variant"], names, tuple(fs))
                return T("tuple", tuple(fs))
        return None

    def promoted(self, path):
        """Value of a promoted constant: its body is straight-line."""
        fn = self.prog.fns.get(path)
        if fn is None:
            return T("constitem", path)
        c = getattr(self, "_prom", None)
        if c is None:
            c = self._prom = {}
        if path not in c:
            c[path] = T("constitem", path)
            sub = Interp(self.prog, Client())
            try:
                r = sub.invoke(fn, [], State(), 0, (), ())
                if len(r) == 1 and r[0][1].op not in ("unk", "phi"):
                    c[path] = r[0][1]
            except FactsError:
                pass
        return c[path]

    def deep(self, st, t, d=0):
        """`t` with addresses replaced by what is stored there."""
        if d > 12:
            return t
        if t.op == "ref":
            return self.deep(st, self.load(st, t.a[0], t.a[1]), d + 1)
        if isinstance(t, Term) and not t.op in ("agg", "tuple", "array", "over", "clo", "f", "idx"):
            # A symbolic location that was written since.
            if (t, ()) in st.store or any(k[0] is t for k in st.store):
                v = self.load(st, t, ())
                if v is not t:
                    return self.deep(st, v, d + 1) if not contains(v, t) else v
            return t
        if t.op == "agg":
            return T("agg", t.a[0], t.a[1], t.a[2], tuple(self.deep(st, x, d + 1) for x in t.a[3]))
        if t.op in ("tuple", "array"):
            return T(t.op, tuple(self.deep(st, x, d + 1) for x in t.a[0]))
        if t.op == "clo":
            return T("clo", t.a[0], tuple(self.deep(st, x, d + 1) for x in t.a[1]))
        if t.op == "f" and any(k[0] is t for k in st.store):
            v = self.load(st, t, ())
            return v
        return t

    # --- facts -----------------------------------------------------------

    def canon(self, t):
        return t

    def constrain(self, st, t, value):
        """Adds the fact that boolean `t` is `value`; raises if impossible."""
        if t.op == "const":
            if t.a[1] != value:
                raise Infeasible()
            return
        if t.op == "un" and t.a[0] == "Not":
            self.constrain(st, t.a[1], not value)
            return
        if t.op == "isv":
            allv = self.variants_of(t.a[2])
            x = t.a[0]
            vs = frozenset([t.a[1]]) if value else frozenset(v for v in allv if v != t.a[1])
            self.constrain_variant(st, x, vs, allv)
            return
        old = st.facts.get(t)
        if old is not None and old is not value and isinstance(old, bool):
            raise Infeasible()
        st.facts[t] = value

    def variants_of(self, adt):
        if adt in ORDER:
            return ORDER[adt]
        return self.prog.variants(adt)

    def constrain_variant(self, st, t, vs, allv):
        if t.op == "agg":
            if t.a[1] not in vs:
                raise Infeasible()
            return
        old = st.facts.get(t)
        if isinstance(old, frozenset):
            vs = vs & old
        if not vs:
            raise Infeasible()
        st.facts[t] = frozenset(vs)

    def known_variants(self, st, t, adt):
        if t.op == "agg":
            return frozenset([t.a[1]])
        f = st.facts.get(t)
        if isinstance(f, frozenset):
            return f
        return frozenset(self.variants_of(adt))

    def known_bool(self, st, t):
        if t.op == "const":
            return bool(t.a[1])
        if t.op == "un" and t.a[0] == "Not":
            b = self.known_bool(st, t.a[1])
            return None if b is None else not b
        if t.op == "isv":
            vs = self.known_variants(st, t.a[0], t.a[2])
            if t.a[1] not in vs:
                return False
            if len(vs) == 1:
                return True
            return None
        f = st.facts.get(t)
        return f if isinstance(f, bool) else None

    # --- blocks ----------------------------------------------------------

    def block(self, fr, bi, st, key):
        b = fr.fn.blocks[bi]
        for s in b["st"]:
            self.client.statement(self, st, fr, bi, s)
            root, path = self.lvalue(fr, st, s["p"])
            if "setdiscr" in s:
                continue
            v = self.rvalue(fr, bi, st, s)
            self.write(st, root, path, v)
            if s["p"].get("p"):
                self.client.assign(self, st, fr, bi, s["s"], (root, path), v)
        return self.terminator(fr, bi, st, b["t"], key)

    def rvalue(self, fr, bi, st, s):
        r = s["r"]
        k = r["k"]
        if k == "use":
            return self.operand(fr, st, r["o"])
        if k in ("ref", "rawptr"):
            root, path = self.lvalue(fr, st, r["p"])
            return self.addr(root, path)
        if k == "agg":
            vals = tuple(self.operand(fr, st, o) for o in r["o"])
            if r["ak"] == "adt":
                adt = norm(r["d"])
                t = T("agg", adt, r["v"], tuple(r["fn"][:len(vals)]), vals)
                self.client.aggregate(self, st, fr, bi, s["s"], t)
                return t
            if r["ak"] == "tuple":
                return T("tuple", vals)
            if r["ak"] == "closure":
                return T("clo", norm(r["d"]), vals)
            return T("array", vals)
        if k == "cast":
            v = self.operand(fr, st, r["o"])
            if v.op == "const" and "IntToInt" in r["ck"]:
                return v
            if "IntToInt" in r["ck"] or "Transmute" in r["ck"]:
                return T("cast", v)
            return v
        if k == "discr":
            root, path = self.lvalue(fr, st, r["p"])
            v = self.load(st, root, path)
            ty = self.prog.types[r["t"]].peel()
            return T("discr", v, ty.d)
        if k == "bin":
            a = self.operand(fr, st, r["a"])
            b = self.operand(fr, st, r["b"])
            return self.binop(r["op"], a, b)
        if k == "un":
            a = self.operand(fr, st, r["a"])
            if r["op"] == "Not" and a.op == "const" and isinstance(a.a[1], bool):
                return const(not a.a[1])
            if r["op"] == "Not" and a.op == "un" and a.a[0] == "Not":
                return a.a[1]
            if r["op"] == "PtrMetadata":
                return T("un", "len", self.deep(st, a))
            return T("un", r["op"], a)
        if k == "repeat":
            return T("array", (self.operand(fr, st, r["o"]),))
        return T("unk", k, (fr.id, bi))

    def binop(self, op, a, b):
        ov = op.endswith("WithOverflow")
        o = op[:-len("WithOverflow")] if ov else op
        x, y = cval(a), cval(b)
        v = None
        if x is not None and y is not None and isinstance(x, (int, bool)) and isinstance(y, (int, bool)):
            v = {
                "Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y,
                "Eq": lambda: x == y, "Ne": lambda: x != y, "Lt": lambda: x < y,
                "Le": lambda: x <= y, "Gt": lambda: x > y, "Ge": lambda: x >= y,
                "BitAnd": lambda: x & y, "BitOr": lambda: x | y,
            }.get(o, lambda: None)()
        elif o in ("Eq", "Ne") and a.op == "const" and b.op == "const":
            v = (x == y) if o == "Eq" else (x != y)
        if v is not None:
            t = const(v)
        elif o == "Ne":
            t = T("un", "Not", T("bin", "Eq", a, b))
        else:
            t = T("bin", o, a, b)
        if ov:
            return T("tuple", (t, T("bin", op + "?", a, b)))
        return t

    def terminator(self, fr, bi, st, t, key):
        k = t["k"]
        if k == "goto" or k == "drop":
            return [(t["to"], st)]
        if k == "return":
            return [("return", st)]
        if k == "assert":
            self.client.panic(self, st, fr, bi, t)
            return [(t["to"], st)]
        if k == "switch":
            return self.switch(fr, bi, st, t)
        if k == "call":
            return self.call(fr, bi, st, t, key)
        return []

    def switch(self, fr, bi, st, t):
        d = self.operand(fr, st, t["d"])
        out = []
        o = t["d"]
        pl = o.get("c") or o.get("m")
        if d.op == "discr":
            x, adt = d.a
            if adt in self.prog.adts:
                vnames = {v["discr"]: v["name"] for v in self.prog.adts[adt]["variants"]}
                allv = [v["name"] for v in self.prog.adts[adt]["variants"]]
            elif adt in ORDER:
                allv = ORDER[adt]
                vnames = dict(enumerate(allv))
            else:
                for _, b in t["v"]:
                    out.append((b, st.copy()))
                out.append((t["else"], st.copy()))
                return out
            if x.op == "phi" and x not in st.facts:
                pass
            poss = self.known_variants(st, x, adt)
            rest = set(poss)
            for val, b in t["v"]:
                n = vnames.get(val)
                rest.discard(n)
                if n in poss:
                    self.take(fr, bi, st, x, frozenset([n]), allv, n, b, out)
            if rest:
                self.take(fr, bi, st, x, frozenset(rest), allv, None if len(rest) > 1 else next(iter(rest)), t["else"], out)
            return out
        # boolean or integer
        ty = None
        if pl is not None and not pl.get("p"):
            ty = fr.fn.locals[pl["l"]]
        isbool = (ty is not None and ty.k == "bool") or d.op in ("isv",) or (
            ty is None and len(t["v"]) == 1 and t["v"][0][0] == 0)
        if isbool:
            for val, b in [(bool(v), b) for v, b in t["v"]] + [(True, t["else"])]:
                kb = self.known_bool(st, d)
                if kb is not None and kb is not val:
                    continue
                s2 = st.copy()
                try:
                    self.constrain(s2, d, val)
                    self.tested(s2, fr, bi, d, val)
                except Infeasible:
                    continue
                out.append((b, s2))
            return out
        c = cval(d)
        if isinstance(c, str) and len(c) == 1:
            c = ord(c)
        for val, b in t["v"]:
            if c is not None and c != val:
                continue
            s2 = st.copy()
            f = s2.facts.get(d)
            if isinstance(f, tuple) and f[0] == "int" and f[1] != val:
                continue
            if isinstance(f, tuple) and f[0] == "notint" and val in f[1]:
                continue
            s2.facts[d] = ("int", val)
            try:
                self.client.branch(self, s2, fr, bi, d, val)
            except Infeasible:
                continue
            out.append((b, s2))
        vals = [v for v, _ in t["v"]]
        if c is None or c not in vals:
            f = st.facts.get(d)
            if not (isinstance(f, tuple) and f[0] == "int" and f[1] in vals):
                s2 = st.copy()
                if not (isinstance(f, tuple) and f[0] == "int"):
                    prev = f[1] if isinstance(f, tuple) else frozenset()
                    s2.facts[d] = ("notint", prev | frozenset(vals))
                try:
                    self.client.branch(self, s2, fr, bi, d, None)
                    out.append((t["else"], s2))
                except Infeasible:
                    pass
        return out

    def tested(self, st, fr, bi, d, val):
        """Tells the client about a test, in its simplest form."""
        while d.op == "un" and d.a[0] == "Not":
            d, val = d.a[1], not val
        if d.op == "isv":
            if val:
                d, val = d.a[0], d.a[1]
            else:
                rest = [v for v in self.variants_of(d.a[2]) if v != d.a[1]]
                d, val = d.a[0], rest[0] if len(rest) == 1 else None
        self.client.branch(self, st, fr, bi, d, val)

    def take(self, fr, bi, st, x, vs, allv, n, b, out):
        s2 = st.copy()
        try:
            self.constrain_variant(s2, x, vs, allv)
            self.client.branch(self, s2, fr, bi, x, n)
        except Infeasible:
            return
        out.append((b, s2))

    # --- calls -----------------------------------------------------------

    def call(self, fr, bi, st, t, key):
        ctx = Ctx()
        ctx.fr, ctx.bi, ctx.term = fr, bi, t
        ctx.callee = fr.fn.callee(t)
        ctx.path = ctx.callee.path if ctx.callee else "<fn pointer>"
        ctx.raw = [self.operand(fr, st, a) for a in t["a"]]
        ctx.args = [self.deep(st, a) for a in ctx.raw]
        ctx.site = fr.chain + ((fr.fn.path, bi),)
        ctx.span = t["s"]
        ctx.types = [self.optype(fr, a) for a in t["a"]]
        if t["to"] is None:
            self.client.panic(self, st, fr, bi, t)
            self.client.call(self, st, ctx)
            return []
        out = []
        for s2, v in self.do_call(st, ctx, fr):
            s2 = s2.copy()
            root, path = self.lvalue(fr, s2, t["p"])
            self.write(s2, root, path, v)
            if t["p"].get("p"):
                self.client.assign(self, s2, fr, bi, t["s"], (root, path), v)
            out.append((t["to"], s2))
        return out

    def optype(self, fr, o):
        if "k" in o:
            return self.prog.types[o["k"]["t"]]
        pl = o.get("c") or o.get("m")
        if pl is None:
            return None
        t = fr.fn.locals[pl["l"]]
        for e in pl.get("p", []):
            if e == "*":
                t = t.inner if t.k in ("ref", "ptr") else None
            elif isinstance(e, dict) and "t" in e:
                t = self.prog.types[e["t"]]
            elif isinstance(e, dict) and "d" in e:
                continue
            else:
                return None
            if t is None:
                return None
        return t

    def do_call(self, st, ctx, fr):
        r = self.client.call(self, st, ctx)
        if r is not None:
            return r
        from .models import MODELS
        m = MODELS.get(ctx.path)
        if m is None and ctx.callee is not None and not ctx.callee.local:
            m = MODELS.get(ctx.callee.decl)
        if m is None and ctx.callee is not None and ctx.callee.trait is not None:
            m = self.trait_model(ctx)
        if m is None and ctx.callee is not None and ctx.callee.decl == "core::cmp::PartialEq::eq" and self.fieldless(ctx):
            m = MODELS["core::cmp::PartialEq::eq"]
        if m is not None:
            r = m(self, st, ctx, fr)
            if r is not None:
                if self.client.modelled is not None:
                    r = [(s2.copy(), v) for s2, v in r]
                    for s2, v in r:
                        self.client.modelled(self, s2, ctx, v)
                return r
        fn = self.prog.fns.get(ctx.path) if ctx.callee and ctx.callee.kind == "item" else None
        if fn is None and ctx.callee and ctx.callee.kind == "item" and not ctx.callee.local:
            fn = None
        if fn is not None and self.may_enter(fr, ctx, fn):
            return self.invoke(fn, ctx.raw, st, fr.depth + 1, fr.stack,
                               fr.chain + ((fr.fn.path, ctx.bi),))
        return self.opaque(st, ctx, fr)

    def trait_model(self, ctx):
        """Clone, and the conversions of strings, keep the value."""
        from .models import copying, transparent
        c = ctx.callee
        tr = c.trait.split("<")[0]
        if len(ctx.raw) != 1:
            return None
        if tr == "core::clone::Clone" and c.name == "clone":
            return copying
        if tr in ("core::ops::deref::Deref", "core::ops::deref::DerefMut", "core::convert::AsRef", "core::borrow::Borrow"):
            st = c.self_ty.adt() if c.self_ty else None
            if st is None or not self.prog.adts.get(st, {}).get("local") or st in self.client_strings():
                return transparent
        if tr in ("core::convert::From", "core::convert::Into", "alloc::borrow::ToOwned", "alloc::string::ToString",
                  "core::iter::traits::collect::IntoIterator"):
            if c.self_ty is not None and c.name in ("from", "into", "to_owned", "to_string", "into_iter"):
                return copying if c.name != "into_iter" else transparent
        return None

    def fieldless(self, ctx):
        """The derived comparison of an enum whose variants have no fields."""
        fn = self.prog.fns.get(ctx.path)
        t = ctx.types[0].peel().adt() if ctx.types and ctx.types[0] is not None else None
        a = self.prog.adts.get(t) if t else None
        return fn is not None and fn.derived and a is not None and self.is_enum(t) and not any(v["fields"] for v in a["variants"])

    def client_strings(self):
        return ("crate::strings::CowStr", "crate::strings::InlineStr")

    def may_enter(self, fr, ctx, fn):
        return (fn.path not in self.client.opaque
                and fn.path not in fr.stack
                and fr.depth < self.client.max_depth
                and len(fn.blocks) <= self.client.max_blocks
                and self.client.enter(self, ctx, fn, fr.depth))

    def opaque(self, st, ctx, fr):
        """A call that is not entered: closures it gets may run any number of
        times; whatever it can reach by &mut may change."""
        states = [st]
        for a in ctx.raw:
            c = self.closure_of(st, a)
            if c is not None and c.a[0] in self.prog.fns and c.a[0] not in fr.stack and fr.depth < self.client.max_depth:
                states = self.maybe_run(states, c, a, ctx, fr)
        out = []
        for s in states:
            s = s.copy()
            v = T("call", ctx.path, tuple(self.deep(s, a) for a in ctx.raw), ctx.site)
            self.havoc(s, ctx)
            r = self.client.after(self, s, ctx, v)
            out.append((s, r if r is not None else v))
        return out

    def closure_of(self, st, a):
        v = a
        for _ in range(3):
            if v.op == "clo":
                return v
            if v.op == "ref":
                v = self.load(st, v.a[0], v.a[1])
            else:
                return None
        return None

    def maybe_run(self, states, clo, raw, ctx, fr):
        fn = self.prog.fns[clo.a[0]]
        # `iter.for_each(f)` is a loop over `next`; other iterator methods hand
        # on items in the same way.
        item = None
        c = ctx.callee
        if c is not None and c.trait and c.trait.split("<")[0].endswith("::Iterator") and fn.argc == 2 and len(ctx.raw) == 2:
            item = T("call", "core::iter::traits::iterator::Iterator::next", (ctx.args[0],), ctx.site)
        loop = item is not None and c.name in ("for_each", "try_for_each")
        out = {}

        def add(s, todo):
            k = (s.ps,)
            if k not in out:
                out[k] = s
                todo.append(k)
            else:
                j = self.join(out[k], s, ("run", ctx.site, s.ps))
                if j is not None:
                    out[k] = j
                    todo.append(k)

        todo = []
        for s in states:
            add(s, todo)
        n = 0
        while todo:
            k = todo.pop()
            n += 1
            if n > 200:
                raise FactsError("closure at %s does not converge" % (ctx.site,))
            s = out[k]
            args = [T("unk", "closurearg", ctx.site, i) for i in range(fn.argc - 1)]
            if item is not None:
                args = [self.proj1(item, ("Some", "0"))]
            extra = self.client_closure_args(ctx, fn)
            if extra is not None:
                args = extra
            if loop:
                s = s.copy()
                self.client.branch(self, s, None, None, item, "Some")
            for s2, _ in self.run_closure(s, clo, args, fr, ctx, raw):
                add(s2, todo)
        if loop:
            ends = {}
            for s in out.values():
                s = s.copy()
                self.client.branch(self, s, None, None, item, "None")
                k = (s.ps,)
                ends[k] = s if k not in ends else (self.join(ends[k], s, ("end", ctx.site, s.ps)) or ends[k])
            out = ends
        return list(out.values())

    def client_closure_args(self, ctx, fn):
        f = getattr(self.client, "closure_args", None)
        return f(self, ctx, fn) if f else None

    def run_closure(self, st, clo, args, fr, ctx, raw=None, tag=""):
        """Runs a closure body. Tuple-typed argument lists are spread already."""
        fn = self.prog.fns.get(clo.a[0])
        if fn is None or clo.a[0] in fr.stack or fr.depth >= self.client.max_depth:
            return [(st, T("unk", "closure", ctx.site, tag))]
        st = st.copy()
        env = fn.locals[1]
        if env.k == "ref":
            if raw is not None and raw.op == "ref":
                envv = raw
            else:
                root = ("L", fr.id, ("clo", ctx.bi, clo.a[0]))
                st.store[(root, ())] = clo
                envv = T("ref", root, ())
        else:
            envv = clo
        return self.invoke(fn, [envv] + list(args), st, fr.depth + 1, fr.stack,
                           fr.chain + ((fr.fn.path, ctx.bi, tag),))

    def apply(self, st, f, args, fr, ctx, tag=""):
        """Calls a function value: closure, fn item or constructor."""
        c = self.closure_of(st, f)
        if c is not None:
            return self.run_closure(st, c, args, fr, ctx, f, tag)
        if f.op == "fn":
            from .models import MODELS
            sub = Ctx()
            sub.fr, sub.bi, sub.term = ctx.fr, ctx.bi, ctx.term
            sub.callee = FakeCallee(f.a[0], self.prog)
            sub.path = f.a[0]
            sub.raw = list(args)
            sub.args = [self.deep(st, a) for a in args]
            sub.site = ctx.site + (("fn", f.a[0], tag),)
            sub.span = ctx.span
            sub.types = [None] * len(args)
            ctor = self.ctor(f.a[0], args)
            if ctor is not None:
                return [(st, ctor)]
            return self.do_call(st, sub, fr)
        v = T("call", "<fn value>", (f,) + tuple(self.deep(st, a) for a in args), ctx.site + (tag,))
        return [(st, v)]

    def ctor(self, path, args):
        for adt, order in ORDER.items():
            for v in order:
                if path.endswith("::" + v) and path.startswith(adt.rsplit("::", 1)[0]):
                    return T("agg", adt, v, ("0",), tuple(args[:1]))
        for adt, a in self.prog.adts.items():
            if a["local"] and path.startswith(adt):
                for v in a["variants"]:
                    if path == adt + "::" + v["name"] or (a["kind"] == "struct" and path == adt):
                        return T("agg", adt, v["name"], tuple(f["name"] for f in v["fields"]), tuple(args))
        return None

    def havoc(self, st, ctx):
        """After an opaque call: mutable arguments have unknown new values
        that remember what they were computed from."""
        olds = tuple(self.deep(st, a) for a in ctx.raw)
        for i, a in enumerate(ctx.raw):
            ty = ctx.types[i] if i < len(ctx.types) else None
            if ty is not None and ty.k == "ref" and ty.mut:
                root, path = self.target(a)
                if isinstance(root, Term) and root.op == "const":
                    continue
                self.write(st, root, path, T("mut", ctx.path, i, olds, ctx.site))
            elif ty is not None and ty.k == "adt":
                self.havoc_inner(st, a, ctx, i, olds)

    def havoc_inner(self, st, a, ctx, i, olds):
        if a.op == "agg" and self.prog.adts.get(a.a[0], {}).get("local"):
            fs = {f["name"]: f for v in self.prog.adts[a.a[0]]["variants"] if v["name"] == a.a[1] for f in v["fields"]}
            for n, v in zip(a.a[2], a.a[3]):
                f = fs.get(n)
                if f is None:
                    continue
                fty = self.prog.types[f["ty"]]
                if fty.k == "ref" and fty.mut:
                    root, path = self.target(v)
                    self.write(st, root, path, T("mut", ctx.path, i, olds, ctx.site))


class FakeCallee:
    """A callee known only by path (function passed as a value)."""

    def __init__(self, path, prog):
        self.path = self.decl = path
        self.name = path.split("::")[-1]
        self.args = []
        self.trait = None
        self.kind = "item"
        self.local = path in prog.fns
        self.self_ty = None


def subst(t, x, y, d=0):
    """t with y in place of x, near the top."""
    if t is x:
        return y
    if d > 3 or t.depth <= x.depth:
        return t
    new = tuple(subst(z, x, y, d + 1) if isinstance(z, Term) else
                tuple(subst(w, x, y, d + 1) if isinstance(w, Term) else w for w in z) if isinstance(z, tuple) else z for z in t.a)
    return t if new == t.a else T(t.op, *new)


def contains(t, x):
    return any(y is x for y in subterms(t))


_heads_cache = {}


class Flow:
    """States at the blocks of one body. States that come by different edges
    are joined; a state that comes by the same edge again replaces the one
    before, except at the head of a loop."""

    def __init__(self, I, fr, heads, tag):
        self.I = I
        self.fr = fr
        self.heads = heads
        self.tag = tag
        self.states = {}
        self.work = []
        self.arrived = {}
        self.merged = {}

    def push(self, bi, s, edge):
        I, fr = self.I, self.fr
        I.prune(fr, bi, s)
        I.client.entering(I, s, fr, bi)
        key = (bi, s.ps, I.flags(fr, bi, s))
        if key not in self.states and len([k for k in self.states if k[0] == bi]) >= I.client.max_states:
            key = (bi, s.ps, "merged")
        old = self.states.get(key)
        jk = (fr.id,) + self.tag + (key,)
        if old is None:
            if len(self.states) > 20000:
                raise FactsError("too many states in %s" % fr.fn.path)
            self.arrived[key] = {edge: s}
            new = s
        elif bi in self.heads or key[2] == "merged":
            I.fresh = self.merged.setdefault(key, {})
            new = I.join(old, s, jk)
            I.phis.update(I.fresh)
            I.fresh = None
        else:
            got = self.arrived[key]
            got[edge] = s
            if len(got) == 1:
                new = s
            else:
                I.fresh = {}
                it = iter(got.values())
                new = next(it)
                for x in it:
                    new = I.join(new, x, jk) or new
                I.phis.update(I.fresh)
                I.fresh = None
            if new.store == old.store and new.facts == old.facts:
                new = None
        if new is not None:
            self.states[key] = new
            if key not in self.work:
                self.work.append(key)


def loop_heads(fn):
    """{loop head: (blocks with an edge back to it, blocks of the loop)}"""
    if fn.path not in _heads_cache:
        color, back, pred = {0: 1}, {}, {}
        stack = [(0, iter(fn.succ(0)))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s) == 1:
                    back.setdefault(s, set()).add(b)
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter(fn.succ(s))))
                    break
            else:
                color[b] = 2
                stack.pop()
        for b in color:
            for s in fn.succ(b):
                pred.setdefault(s, []).append(b)
        out = {}
        for h, bs in back.items():
            body, todo = {h}, list(bs)
            while todo:
                b = todo.pop()
                if b not in body:
                    body.add(b)
                    todo.extend(pred.get(b, ()))
            out[h] = (bs, body)
        _heads_cache[fn.path] = out
    return _heads_cache[fn.path]


_rpo_cache = {}


def _rpo(fn):
    r = _rpo_cache.get(fn.path)
    if r is not None:
        return r
    seen = set()
    order = []
    stack = [(0, iter(fn.succ(0)))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(fn.succ(s))))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    r = {b: i for i, b in enumerate(order)}
    _rpo_cache[fn.path] = r
    return r


def _key(x):
    return tuple(x) if isinstance(x, list) else x
