"""Every loop of the crate is interpreted for one more iteration from the state
that holds whenever it is entered or repeated. On each way back to its head,
some variable must have got nearer to a limit: (1) an iterator over a finite
collection or text was advanced, and yielded an item; (2) a text (span, string
slice, or offset into a text) was replaced by a part of itself that begins
later; (3) a string was replaced by a shorter one; (4) a counter was increased,
and the iteration was repeated only because a finite collection that the loop
leaves alone contains a text made from that counter; (5) a flag was switched
that no way through the loop switches back. Functions that recur
(directly or through others) pass on a part of the text they were given, and on
every cycle of calls some call passes a part that begins later. What a function
of the crate returns is related to its arguments by analysing it in the same
way, under the assumption that the text is not empty where the caller has
tested that."""

from checks.common import *
from engine.interp import Interp, Policy, T, show, loop_heads, subterms, Infeasible

TECH = "abstract interpretation of MIR with a progress relation (ranking argument) for every loop and every recursive call"
NOTE = "All loops and recursive calls in the crate's non-test code. Recursion of includes and of passthroughs is C06's. Loops inside dependencies are assumed to end."

FINITE = {"IntoIter", "Iter", "IterMut", "Enumerate", "Peekable", "CharIndices", "Chars", "Bytes", "Memchr", "Memchr2", "Memchr3",
          "Lines", "LinesMap", "Split", "SplitN", "RSplit", "SplitTerminator", "SplitInclusive", "SplitWhitespace", "SplitAsciiWhitespace",
          "Range", "RangeInclusive", "Rev", "Skip", "Take", "StepBy", "Map", "Filter", "FilterMap", "Zip", "Chain", "Cloned", "Copied",
          "Keys", "Values", "Drain", "CaptureMatches", "Matches", "MatchIndices", "SkipWhile", "TakeWhile", "Fuse", "Windows", "Chunks",
          "Inspect", "Flatten", "FlatMap", "Once", "Empty", "ValuesMut", "IntoKeys", "IntoValues", "Find", "FindIter"}
ENDLESS = {"Repeat", "RepeatWith", "Cycle", "FromFn", "Successors", "RangeFrom"}


class P05(Policy):
    max_states = 40

    def __init__(self, p, check):
        self.p = p
        self.check = check
        self.keep = False

    def into(self, fn):
        return fn.self_adt is not None and fn.self_adt.endswith("::MatchedItem") and not fn.name == "default"

    def flagkey(self, I, st, fr):
        if not self.keep:
            return ()
        return (frozenset((t, v) for t, v in st.facts.items()
                          if t.op == "call" and last(t.a[0]) in ("strip_prefix", "find", "position") and isinstance(v, frozenset) and len(v) == 1
                          or t.op == "call" and last(t.a[0]) == "eq" and v is True and fr.fn.locals[0].s == "bool"
                          or clamp(t)),)

    def backedge(self, I, fr, h, s1, s2):
        self.check.repeat(I, fr, h, s1, s2)


def clamp(t):
    """A parameter compared with the length of a text."""
    return t.op == "bin" and t.a[0] in ("Gt", "Lt", "Ge", "Le") and (
        t.a[1].op == "p" and length_of(t.a[2]) is not None or t.a[2].op == "p" and length_of(t.a[1]) is not None)


def clamped(I, ex):
    """`if n > len { len } else { n }` is the minimum of both."""
    if len(ex) != 2:
        return ex
    for i in (0, 1):
        (s1, v1), (s2, v2) = ex[i], ex[1 - i]
        for t, val in s1.facts.items():
            if clamp(t) and s2.facts.get(t) is (not val):
                op, a, b = t.a
                big, small = (a, b) if (op in ("Gt", "Ge")) is val else (b, a)
                if small.op != "p" and substitute_term(v2, big, small) is v1 and v1 is not v2:
                    s = s2.copy()
                    s.facts.pop(t)
                    return [(s, substitute_term(v2, big, T("call", "core::cmp::Ord::min", (small, big), ("min",))))]
    return ex


def substitute_term(v, old, new):
    """v with one term for another."""
    def go(x):
        if x is old:
            return new
        if isinstance(x, Term_):
            return T(x.op, *[go(y) for y in x.a]) if x.op != "phi" else x
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(v)


def last(path):
    return path.rsplit("::", 1)[-1]


def const_text(t):
    if t.op == "const" and isinstance(t.a[1], (str, bytes)):
        return t.a[1]
    return None


class Progress:
    """The relation `v` is a part of `base` that begins at least `k` later
    (k = 0 or 1), for the terms of one analysis."""

    def __init__(self, check, I, facts, nonempty=(), stops=()):
        self.check = check
        self.I = I
        self.facts = facts
        self.stops = frozenset(stops)
        self.assume = {}
        self.edges = {}
        self.memo = {}
        self.given = [self.canon(x) for x in nonempty]
        self.told = list(self.given)
        for t, val in facts.items():
            z = self.tells(t, val, 0)
            if z is not None and self.canon(z) not in self.told:
                self.told.append(self.canon(z))
        # texts that certainly begin later than, or are less than, another
        self.later = {}
        for z in self.told:
            for a, b in self.cut_rests(z):
                self.later.setdefault(a, set()).add(b)
        for t, val in facts.items():
            if t.op == "call" and len(t.a[1]) == 2 and last(t.a[0]) in ("eq", "ne") and val is (last(t.a[0]) == "ne"):
                x, y = [self.canon(u) for u in t.a[1]]
                for a, b in ((x, y), (y, x)):
                    self.later.setdefault(a, set()).add(b)

    def cut_rests(self, z, d=0):
        """(a, b) if `z` is a part of what b has before a: it is not empty only
        if a begins later than b."""
        if d > 12 or z.op == "phi":
            return
        t = z
        if t.op == "call" and t.a[0] in self.check.cutters:
            yield self.canon(t.a[1][1]), self.canon(t.a[1][0])
        least, es = self.step(z)
        for arg, k, full in es:
            yield from self.cut_rests(arg, d + 1)

    # -- forms

    def canon(self, t):
        """A span and its text are the same cursor."""
        while True:
            if t.op == "f" and t.a[1] is None and t.a[2] == "data":
                t = t.a[0]
            elif t.op == "call" and t.a[1] and (t.a[0] in self.check.same or last(t.a[0]) in (
                    "deref", "as_ref", "borrow", "as_str", "clone", "as_bytes", "to_owned", "to_string", "into_iter")) and len(t.a[1]) == 1:
                t = t.a[1][0]
            elif t.op == "agg" and t.a[0] == self.check.span:
                t = t.a[3][t.a[2].index("data")]
            elif t.op == "call" and t.a[0] == self.check.new:
                t = t.a[1][0]
            elif t.op == "f" and (t.a[0].op in ("agg", "tuple")):
                u = self.I.proj1(t.a[0], (t.a[1], t.a[2]) if t.a[1] else t.a[2])
                if u is t:
                    return t
                t = u
            else:
                return t

    def offset_of(self, t):
        """s for an offset of span s."""
        if t.op == "f" and t.a[2] == "offset":
            return t.a[0]
        if t.op == "call" and t.a[0] in self.check.offsets:
            return t.a[1][0]
        return None

    # -- the relation

    def adv(self, v, base, d=0):
        return self.query(self.canon(v), self.canon(base), True)

    def part(self, v, base):
        return self.query(self.canon(v), self.canon(base), False) >= 0

    def query(self, v, base, strict, stops=None):
        """The greatest solution of the equations the steps give, for one
        base: a merged value begins where the earliest of its inputs does."""
        if v is base:
            return 0
        stops = self.stops if stops is None else stops
        key = (v, base, strict, stops)
        if key in self.memo:
            return self.memo[key]
        nodes, todo, extra = {}, [v], {}
        while todo:
            x = todo.pop()
            if x in nodes or x is base:
                continue
            if len(nodes) > 4000:
                return -1
            if x in stops:
                nodes[x] = (False, ())
                continue
            nodes[x] = self.step(x)
            todo.extend(e[0] for e in nodes[x][1])
            if strict and x in self.later:
                extra[x] = [y for y in self.later[x] if self.query(x, y, False, stops) >= 0]
                todo.extend(extra[x])
        val = {x: 1 for x in nodes}
        val[base] = 0
        order = list(nodes)[::-1]
        changed = True
        weight = {}
        while changed:
            changed = False
            for x in order:
                least, es = nodes[x]
                rs = []
                for arg, k, full in es:
                    r = val[arg]
                    if r < 0:
                        rs.append(-1)
                        continue
                    if strict and r == 0:
                        w = weight.get((x, arg, id(k)))
                        if w is None:
                            w = k() if callable(k) else k
                            if not w and full and (not callable(full) or full()) and (self.is_nonempty(arg) or self.is_nonempty(base)):
                                w = 1
                            weight[(x, arg, id(k))] = w
                        r = max(r, w)
                    rs.append(r)
                n = (min(rs) if least else max(rs)) if rs else -1
                if any(val[y] >= 0 for y in extra.get(x, ())):
                    n = 1
                if n < val[x]:
                    val[x] = n
                    changed = True
        self.memo[key] = val[v]
        return val[v]

    def step(self, v):
        r = self.edges.get(v)
        if r is None:
            least, es = self.steps(v)
            r = self.edges[v] = (least, [(self.canon(a), k, full) for a, k, full in es if self.canon(a) is not v])
        return r

    def differs(self, a, b):
        for t, val in self.facts.items():
            if t.op == "call" and len(t.a[1]) == 2 and last(t.a[0]) in ("eq", "ne") and val is (last(t.a[0]) == "ne"):
                x, y = [self.canon(z) for z in t.a[1]]
                if (x is self.canon(a) and y is self.canon(b)) or (y is self.canon(a) and x is self.canon(b)):
                    return True
        return False

    def steps(self, v):
        """What `v` is a part of: (whether it may be any of them, [(text, how
        much later it begins, whether it begins later if the text is not
        empty)])."""
        if v.op == "cast":
            return False, [(v.a[0], 0, False)]
        path, t = [], v
        while t.op == "f":
            path.insert(0, (t.a[1], t.a[2]))
            t = t.a[0]
        path = tuple(path)
        if t.op == "phi":
            out = []
            for x in sorted(self.I.phis.get(t, ()), key=lambda y: y.id):
                for y in project(self.I, x, path, through=False):
                    if not self.differs(v, y):
                        out.append((y, 0, False))
            return True, out
        if t.op == "call" and t.a[1]:
            return False, self.called(t, path)
        return False, []

    def called(self, c, path):
        name, args = c.a[0], c.a[1]
        n = last(name)
        fn = self.check.p.fns.get(name)
        out = []
        if fn is not None:
            for cand, k0, k1, k2, others in self.check.summary(fn, path):
                arg = self.subst(cand, args)
                if arg is None:
                    continue
                if k2 > k0 and all(self.full(args[i]) for i in others):
                    k0 = k2
                out.append((arg, k0, k1 > k0))
            for v in self.check.unfold(fn, path):
                v = self.subst(v, args)
                if v is not None:
                    out.append((v, 0, False))
            x = self.complementary(c, path)
            if x is not None:
                out.append((x, 0, True))
            return out
        tail = path[-1:] and path[-1][1]
        if not path:
            if n == "index" and len(args) == 2:
                return self.sliced(args[0], args[1])
            if n in ("trim_start", "trim_start_matches", "trim", "trim_end", "trim_end_matches", "trim_matches", "strip_suffix",
                     "trim_left", "trim_right"):
                return [(args[0], 0, False)]
        if path == (("Some", "0"),):
            if n == "strip_prefix":
                return [(args[0], (lambda: 1 if self.full(args[1]) else 0), False)]
            if n == "strip_suffix":
                return [(args[0], 0, False)]
            if n == "get" and len(args) == 2:
                return self.sliced(args[0], args[1])
        if len(path) == 2 and path[0] == ("Some", "0") and n in ("split_once", "rsplit_once", "split_at_checked"):
            if tail == "0":
                return [(args[0], 0, False)]
            k = (lambda: int(self.full(args[1]))) if n != "split_at_checked" else (lambda: int(self.positive(args[1])))
            return [(args[0], k, False)]
        if n == "split_at" and len(path) == 1:
            return [(args[0], (lambda: int(tail == "1" and self.positive(args[1]))), False)]
        return []

    def sliced(self, s, rng):
        if rng.op != "agg":
            return [(s, 0, False)]
        f = dict(zip(rng.a[2], rng.a[3]))
        if "start" in f:
            n = f["start"]
            if n.op == "call" and last(n.a[0]) == "min":
                rest = [x for x in n.a[1] if length_of(x) is None or self.canon(length_of(x)) is not self.canon(s)]
                if len(rest) < len(n.a[1]):     # at most its length
                    return [(s, 0, lambda: all(self.positive(x) for x in rest))]
            return [(s, (lambda: int(self.positive(n))), False)]
        return [(s, 0, False)]

    def subst(self, t, args):
        """A term over parameters, over the arguments instead."""
        return substitute(t, args, self.I)

    def full(self, pat):
        """A pattern that matches only texts that are not empty."""
        s = const_text(pat)
        if s is not None:
            return len(s) > 0
        if pat.op == "const":
            return True                 # a character
        if pat.op in ("clo", "array", "fn"):
            return True                 # characters
        return self.is_nonempty(pat)

    def positive(self, n, d=0):
        """A number that is certainly not zero."""
        if d > 40:
            return False
        if n.op == "const":
            return isinstance(n.a[1], int) and n.a[1] > 0
        f = self.facts.get(n)
        if isinstance(f, tuple) and f and f[0] == "notint" and 0 in f[1]:
            return True
        if f is True or isinstance(f, int) and not isinstance(f, bool) and f > 0:
            return True
        for t, val in self.facts.items():
            if t.op == "bin" and isinstance(val, bool):
                op, a, b = t.a
                if (op == "Gt" and val and a is n) or (op == "Lt" and val and b is n) or (op == "Le" and not val and a is n) \
                        or (op == "Ge" and not val and b is n):
                    return True
                if op == "Ge" and val and a is n and self.positive(b, d + 1):
                    return True
                zero = [x for x in (a, b) if x.op == "const" and x.a[1] == 0]
                if zero and n in (a, b) and ((op == "Eq" and not val) or (op == "Ne" and val)):
                    return True
        if n.op == "f" and n.a[0].op == "bin":
            return self.positive(n.a[0], d + 1)
        if n.op == "bin":
            op, a, b = n.a
            if op.startswith("Add"):
                return self.positive(a, d + 1) or self.positive(b, d + 1)
            if op.startswith("Sub"):
                return self.difference(a, b, d + 1) == 1
            if op.startswith("Mul"):
                return self.positive(a, d + 1) and self.positive(b, d + 1)
        if n.op == "cast":
            return self.positive(n.a[0], d + 1)
        if n.op == "un" and n.a[0] == "len":
            return self.is_nonempty(n.a[-1], d + 1)
        if n.op == "call":
            m = last(n.a[0])
            if m == "min":
                return all(self.positive(x, d + 1) for x in n.a[1])
            if m == "max":
                return any(self.positive(x, d + 1) for x in n.a[1])
            if m == "len":
                return self.is_nonempty(n.a[1][0], d + 1)
            if m == "len_utf8":
                return True
        if n.op == "phi":
            ins = self.I.phis.get(n, ())
            key = ("pos", n)
            if key in self.assume:
                return True
            self.assume[key] = 1
            ok = bool(ins) and all(self.positive(x, d + 1) for x in ins)
            self.assume.pop(key)
            return ok
        return False

    def difference(self, a, b, d):
        """1 if a - b is certainly positive, 0 if not negative, else -1: for
        offsets of, or lengths of, a text and a part of it."""
        sa, sb = self.offset_of(a), self.offset_of(b)
        if sa is not None and sb is not None:
            return self.adv(sa, sb, d + 1)
        for i, x in enumerate((a, b)):
            key = ("diff", a, b)
            if x.op == "phi" and key not in self.assume and d < 12:
                self.assume[key] = 1
                r = min([self.difference(*((y, b) if i == 0 else (a, y)), d + 1) for y in self.I.phis.get(x, ())] or [-1])
                self.assume.pop(key)
                return r
            if x.op == "phi" and key in self.assume:
                return 1
        la, lb = length_of(a), length_of(b)
        if la is not None and lb is not None:
            return self.adv(lb, la, d + 1)
        return -1

    # -- texts that are not empty

    def is_nonempty(self, x, d=0):
        x = self.canon(x)
        s = const_text(x)
        if s is not None:
            return len(s) > 0
        if any(self.part(z, x) for z in self.told):
            return True
        c = x.a[1][0] if x.op == "call" and len(x.a[1]) == 1 and last(x.a[0]) in ("from", "into") else x
        if c.op == "f" and c.a[1] == "Some" and c.a[0].op == "call" and last(c.a[0].a[0]) in ("next", "next_back", "last") and "Chars" in c.a[0].a[0]:
            return True     # a character, as text
        return x.op == "fmt" and d < 4 and any(self.piece(y) for y in x.a[0])

    def piece(self, y):
        if isinstance(y, str):
            return len(y) > 0
        if isinstance(y, Term_):
            return self.is_nonempty(y, 3)
        return False

    def tells(self, t, val, d):
        """A text that the fact says is not empty."""
        if t.op == "call" and t.a[1]:
            n = last(t.a[0])
            if n == "is_empty" and val is False:
                return t.a[1][0]
            if n in ("starts_with", "ends_with", "contains", "eq") and val is True and len(t.a[1]) == 2:
                for x, y in (t.a[1], t.a[1][::-1]):
                    s = const_text(self.canon(y))
                    if (s is not None and len(s) > 0) or (s is None and y.op != "fmt" and self.canon(y) in self.given) or (s is None and y.op in ("const", "clo", "array") and n != "eq"):
                        return x
                return None
            if n == "ne" and val is True or n == "eq" and val is False:
                for x, y in (t.a[1], t.a[1][::-1]):
                    if const_text(self.canon(y)) == "":
                        return x
            if isinstance(val, bool) and t.a[0] in self.check.p.fns:
                for c in self.check.told_by(self.check.p.fns[t.a[0]], val):
                    x = self.subst(c, t.a[1])
                    if x is not None:
                        return x
            if n == "next" and val == frozenset(["Some"]):
                return self.source_of_iter(t.a[1][0])
            if n in ("find", "position", "split_once", "strip_prefix", "rfind", "rsplit_once", "strip_suffix") and val == frozenset(["Some"]):
                if n == "position" or self.full(t.a[1][-1]):
                    return t.a[1][0]
        if t.op == "bin" and isinstance(val, bool):
            op, a, b = t.a
            less = (op == "Lt" and val) or (op == "Ge" and not val)
            more = (op == "Gt" and val) or (op == "Le" and not val)
            if more:
                a, b = b, a
            if less or more:
                x, y = self.offset_of(a), self.offset_of(b)
                if x is not None and y is not None and self.together(x, y):
                    return x
                if a.op == "const" and length_of(b) is not None:
                    return length_of(b)
            for x, y, o, want in ((a, b, "Ge", True), (b, a, "Le", True), (a, b, "Lt", False), (b, a, "Gt", False), (a, b, "Eq", True), (b, a, "Eq", True)):
                if t.a[0] == o and val is want and y.op == "const" and isinstance(y.a[1], int) and y.a[1] > 0 and length_of(x) is not None:
                    return length_of(x)
            if op in ("Eq", "Ne") and (op == "Eq") is not val:
                for x, y in ((a, b), (b, a)):
                    if y.op == "const" and y.a[1] == 0 and length_of(x) is not None:
                        return length_of(x)
        if isinstance(val, tuple) and val and val[0] == "notint" and 0 in val[1] and length_of(t) is not None:
            return length_of(t)
        return None

    def source_of_iter(self, it):
        it = self.canon(it)
        if it.op == "mut" and last(it.a[0]) in ("next", "next_back"):
            return None
        if it.op == "call" and last(it.a[0]) in ("chars", "char_indices", "bytes", "lines"):
            return it.a[1][0]
        return None

    def together(self, x, y):
        """Both are rests of one text: x begins before y, so x is not at its end."""
        def bases(t, out):
            todo = [t]
            while todo and len(out) < 400:
                t = self.canon(todo.pop(0))
                if t in out:
                    continue
                out[t] = 1
                if t.op == "phi":
                    todo += sorted(self.I.phis.get(t, ()), key=lambda u: u.id)
                while t.op == "f":
                    t = t.a[0]
                    if t.op == "phi":
                        todo += sorted(self.I.phis.get(t, ()), key=lambda u: u.id)
                if t.op == "call":
                    todo += t.a[1]
        bx, by = {}, {}
        bases(x, bx)
        bases(y, by)
        none = frozenset()
        return any(self.query(self.canon(x), b, False, none) >= 0 and self.query(self.canon(y), b, False, none) >= 0 for b in bx if b in by)

    # -- offsets as cursors

    def adv_int(self, v, base, d=0):
        if v is base:
            return 0
        if d > 20:
            return -1
        key = ("int", v, base)
        if key in self.assume:
            return self.assume[key]
        if v.op == "phi":
            ins = self.I.phis.get(v, ())
            for k in (1, 0):
                self.assume[key] = k
                r = min([self.adv_int(x, base, d + 1) for x in ins] or [-1])
                if r >= k:
                    self.assume.pop(key)
                    return k
            self.assume.pop(key)
            return -1
        if v.op == "f" and v.a[0].op == "bin":
            v = v.a[0]
        if v.op == "bin" and v.a[0].startswith("Add"):
            best = -1
            for x, y in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                r = self.adv_int(x, base, d + 1)
                if r >= 0:
                    best = max(best, r, 1 if self.positive(y) else 0)
            return best
        if v.op == "call" and last(v.a[0]) in ("max", "wrapping_add", "saturating_add") and len(v.a[1]) == 2:
            rs = [self.adv_int(x, base, d + 1) for x in v.a[1]]
            if last(v.a[0]) == "saturating_add":
                for x, r in zip(v.a[1][::-1], rs):
                    if r >= 0 and self.positive(x):
                        return 1
            return max(rs) if last(v.a[0]) != "wrapping_add" else -1
        if v.op == "call" and last(v.a[0]) == "min":
            # An offset into a text is at most its length.
            rs = [self.adv_int(x, base, d + 1) for x in v.a[1]]
            return max(rs)
        s = self.offset_of(v)
        if s is not None:
            best = -1
            for cut, start in self.cuts(s):
                r = self.adv_int(start, base, d + 1)
                if r >= 0:
                    k = self.adv(s, cut)
                    if k >= 0:
                        best = max(best, r, k)
            return best
        path, t = [], v
        while t.op == "f":
            path.insert(0, (t.a[1], t.a[2]))
            t = t.a[0]
        if t.op == "call" and t.a[0] in self.check.p.fns:
            fn = self.check.p.fns[t.a[0]]
            best = -1
            for cand, k in self.check.summary_int(fn, tuple(path)):
                arg = self.subst(cand, t.a[1])
                if arg is not None:
                    r = self.adv_int(arg, base, d + 1)
                    if r >= 0:
                        best = max(best, r, k)
            return best
        return -1

    def cuts(self, s, d=0, seen=None):
        """Parts (part, n) on the way to `s` that were cut off at offset n from
        a text that begins at offset 0."""
        seen = set() if seen is None else seen
        if s in seen or d > 30:
            return
        seen.add(s)
        s = self.canon(s)
        if s.op == "phi":
            for x in self.I.phis.get(s, ()):
                yield from self.cuts(x, d + 1, seen)
            return
        path, t = [], s
        while t.op == "f":
            path.insert(0, (t.a[1], t.a[2]))
            t = t.a[0]
        if t.op == "phi":
            for x in self.I.phis.get(t, ()):
                for y in project(self.I, x, tuple(path)):
                    yield from self.cuts(y, d + 1, seen)
            return
        if t.op != "call" or not t.a[1]:
            return
        if last(t.a[0]) == "index" and len(t.a[1]) == 2 and t.a[1][1].op == "agg":
            f = dict(zip(t.a[1][1].a[2], t.a[1][1].a[3]))
            if "start" in f and "end" not in f:
                yield s, f["start"]
        fn = self.check.p.fns.get(t.a[0])
        if fn is not None:
            for v in self.check.unfold(fn, tuple(path)):
                v = self.subst(v, t.a[1])
                if v is not None:
                    yield from self.cuts_via(s, v, d + 1, seen)
            for cand, k0, k1, k2, others in self.check.summary(fn, tuple(path)):
                arg = self.subst(cand, t.a[1])
                if arg is not None:
                    yield from self.cuts(arg, d + 1, seen)

    def cuts_via(self, s, v, d, seen):
        for cut, n in self.cuts(v, d, seen):
            yield cut, n
            if cut is v or self.canon(v) is cut:
                yield s, n

    # -- complementary runs

    def complementary(self, c, path):
        """take_while(p) after take_while(not p): one of them takes something.
        The text before both."""
        if path[-1:] != ((None, "after"),) or len(c.a[1]) != 2:
            return None
        s = self.canon(c.a[1][0])
        if s.op == "f" and s.a[2] == "after" and s.a[0].op == "call" and s.a[0].a[0] == c.a[0]:
            inner = s.a[0]
            a, b = self.check.charset(inner.a[1][1]), self.check.charset(c.a[1][1])
            if a is not None and b is not None and a[0] == b[0] and a[1] is not b[1]:
                return inner.a[1][0]
        return None


Term_ = type(T("const", "int", 0))


def length_of(n):
    if n.op == "un" and n.a[0] == "len":
        return n.a[-1]
    if n.op == "call" and last(n.a[0]) == "len" and len(n.a[1]) == 1:
        return n.a[1][0]
    return None


def project(I, t, path, seen=None, through=True):
    """What `t` has at `path`, for each value it may stand for."""
    seen = set() if seen is None else seen
    if (t, path) in seen:
        return
    seen.add((t, path))
    if t.op == "phi" and not through:
        for v, n in path:
            t = T("f", t, v, n)
        yield t
        return
    if t.op == "phi":
        for x in sorted(I.phis.get(t, ()), key=lambda y: y.id):
            yield from project(I, x, path, seen, through)
        return
    if not path:
        yield t
        return
    var, name = path[0]
    if t.op == "agg":
        if var is not None and t.a[1] != var:
            return
        if name in t.a[2]:
            yield from project(I, t.a[3][t.a[2].index(name)], path[1:], seen, through)
        return
    u = I.proj1(t, (var, name) if var else name)
    if u.op == "f" and u.a[0] is t:
        for i, (v2, n2) in enumerate(path[1:]):
            u = I.proj1(u, (v2, n2) if v2 else n2)
        yield u
    else:
        yield from project(I, u, path[1:], seen, through)


def substitute(t, args, I, d=0):
    if d > 30:
        return None
    if t.op == "p":
        i = t.a[0] - 1
        return args[i] if isinstance(t.a[0], int) and 0 <= i < len(args) else None
    if t.op == "phi":
        return None
    if t.op == "f":
        b = substitute(t.a[0], args, I, d + 1)
        return None if b is None else I.proj1(b, (t.a[1], t.a[2]) if t.a[1] else t.a[2])
    out = []
    for x in t.a:
        if isinstance(x, Term_):
            y = substitute(x, args, I, d + 1)
            if y is None:
                return None
            out.append(y)
        elif isinstance(x, tuple) and any(isinstance(y, Term_) for y in x):
            ys = []
            for y in x:
                z = substitute(y, args, I, d + 1) if isinstance(y, Term_) else y
                if z is None:
                    return None
                ys.append(z)
            out.append(tuple(ys))
        else:
            out.append(x)
    return T(t.op, *out)


class Check:
    def __init__(self, p, rep):
        self.p = p
        self.rep = rep
        self.summaries = {}
        self.supposed = {}
        self.leans = set()
        self.ints = {}
        self.bools = {}
        self.runs = {}
        self.unfolds = {}
        self.found = {}
        self.flags = {}
        spans = [a for a in p.adts if p.adts[a]["local"] and a.endswith("::Span")]
        if len(spans) != 1:
            raise FactsError("the type Span: found %s" % spans)
        self.span = spans[0]
        # functions that return the text, or the offset, of a span
        self.same, self.offsets, self.new, self.cutters = set(), set(), None, set()
        for fn in p.fns.values():
            if fn.self_adt != self.span or fn.kind == "const":
                continue
            if fn.argc == 1 and len(list(fn.live_blocks())) <= 2:
                for st, v in self.run(fn):
                    if v.op == "f" and v.a[2] == "data" and v.a[0] is T("p", 1):
                        self.same.add(fn.path)
                    if v.op == "f" and v.a[2] == "offset" and v.a[0] is T("p", 1):
                        self.offsets.add(fn.path)
                    if v.op == "agg" and v.a[0] == self.span and v.a[3][v.a[2].index("data")] is T("p", 1):
                        self.new = fn.path
        for fn in p.fns.values():
            if fn.self_adt == self.span and fn.argc == 2 and all(fn.locals[i].peel().d == self.span for i in (0, 1, 2)) and fn.kind == "fn":
                ex = self.run(fn)
                if ex and all(self.cut(self.runs[fn.path][0], v) for st, v in ex):
                    self.cutters.add(fn.path)
        self.runs = {}

    def cut(self, I, v):
        """A slice of the first parameter that ends no later than the second
        begins."""
        if v.op == "phi":
            return all(self.cut(I, x) for x in I.phi_inputs(v))
        if v.op == "call" and v.a[0] in self.p.fns and len(v.a[1]) == 2 and v.a[1][0] is T("p", 1) and v.a[1][1].op == "agg":
            f = dict(zip(v.a[1][1].a[2], v.a[1][1].a[3]))
            if set(f) <= {"start", "end"} and "end" in f and f.get("start", T("const", "int", 0)) is T("const", "int", 0):
                return self.before(I, f["end"])
        return False

    def before(self, I, n):
        """0, or at most how much later the second parameter begins."""
        if n.op == "phi":
            return all(self.before(I, x) for x in I.phi_inputs(n))
        if n.op == "const":
            return n.a[1] == 0
        if n.op == "f" and n.a[0].op == "bin":
            n = n.a[0]
        if n.op == "call" and last(n.a[0]) == "min":
            return any(self.before(I, x) for x in n.a[1])
        a = b = None
        if n.op == "bin" and n.a[0].startswith("Sub"):
            a, b = n.a[1:]
        elif n.op == "call" and last(n.a[0]) in ("saturating_sub", "wrapping_sub"):
            a, b = n.a[1]
        if a is None:
            return False
        o1, o2 = T("f", T("p", 1), None, "offset"), T("f", T("p", 2), None, "offset")
        if a.op == "call" and last(a.a[0]) == "min":
            return b is o1 and o2 in a.a[1]
        return a is o2 and b is o1

    # -- summaries

    def run(self, fn):
        if fn.path not in self.runs:
            self.runs[fn.path] = None
            I = Interp(self.p, Quiet(self.p, self))
            I.client.keep = fn.locals[0].s == "bool" or fn.self_adt is not None and (
                fn.self_adt == self.span or fn.self_adt.endswith("::MatchedItem"))
            try:
                ex = I.run(fn)
            except FactsError:
                ex = []
            self.runs[fn.path] = (I, clamped(I, ex))
        r = self.runs[fn.path]
        return r[1] if r else []

    def candidates(self, fn):
        """Texts among the parameters."""
        out = []

        def walk(ty, t, d):
            ty = ty.peel()
            if ty.k in ("str",) or ty.k == "adt" and ty.d in (self.span, "alloc::string::String"):
                out.append(t)
            elif ty.k == "adt" and d < 2 and self.p.adts.get(ty.d, {}).get("local") and self.p.adts[ty.d]["kind"] == "struct":
                for v in self.p.adts[ty.d]["variants"]:
                    for f in v["fields"]:
                        walk(self.p.types[f["ty"]], T("f", t, None, f["name"]), d + 1)
        for i in range(1, fn.argc + 1):
            walk(fn.locals[i], T("p", i), 0)
        return out

    def summary(self, fn, path):
        """How what `fn` returns at `path` relates to its texts. What a call
        that is part of the recursion returns is supposed to advance until
        that is found to be wrong."""
        key = (fn.path, path)
        if key in self.summaries:
            return self.summaries[key]
        if key in self.supposed:
            self.leans.add(key)
            return self.supposed[key]
        outer, self.leans = self.leans, set()
        self.supposed[key] = [(c, 1, 1, 1, ()) for c in self.candidates(fn)]
        while True:
            r = self.summarise(fn, path)
            if key not in self.leans or r == self.supposed[key]:
                break
            self.supposed[key] = r
        del self.supposed[key]
        self.leans.discard(key)
        if not self.leans:
            self.summaries[key] = r
        self.leans |= outer
        return r

    def summarise(self, fn, path):
        out = []
        exits = self.run(fn)
        if exits:
            I = self.runs[fn.path][0]
            vals = []
            for st, v in exits:
                for y in project(I, v, path):
                    vals.append((st, y))
            if vals:
                for c in self.candidates(fn):
                    others = tuple(i - 1 for i in range(1, fn.argc + 1) if T("p", i) is not c and fn.locals[i].peel().k == "str")
                    ks = []
                    for given in ([], [c], [T("p", i + 1) for i in others]):
                        r = 1
                        for st, y in vals:
                            pr = Progress(self, I, st.facts, given)
                            if contradictory(pr, st.facts):
                                continue
                            r = min(r, pr.adv(y, c))
                            if r < 0:
                                break
                        ks.append(r)
                        if r == 1 and len(ks) == 1:
                            ks = [1, 1, 1]
                            break
                    if max(ks) >= 0:
                        out.append((c, ks[0], ks[1], ks[2] if others else -1, others))
        return out

    def summary_int(self, fn, path):
        key = (fn.path, path)
        if key in self.ints:
            return self.ints[key]
        self.ints[key] = []
        out = []
        exits = self.run(fn)
        if exits:
            I = self.runs[fn.path][0]
            vals = [(st, y) for st, v in exits for y in project(I, v, path)]
            for i in range(1, fn.argc + 1):
                if fn.locals[i].k in ("uint", "int", "usize") or fn.locals[i].s == "usize":
                    r = min([Progress(self, I, st.facts).adv_int(y, T("p", i)) for st, y in vals] or [-1])
                    if r >= 0:
                        out.append((T("p", i), r))
        self.ints[key] = out
        return out

    def unfold(self, fn, path):
        """The value a function without alternatives returns."""
        key = (fn.path, path)
        if key not in self.unfolds:
            self.unfolds[key] = []
            exits = self.run(fn)
            if exits:
                I = self.runs[fn.path][0]
                vs = list(dict.fromkeys(y for st, v in exits for y in project(I, v, path)))
                if len(vs) == 1 and not any(x.op in ("phi", "mut") for x in I.deepterms(vs[0])):
                    self.unfolds[key] = vs
        return self.unfolds[key]

    def told_by(self, fn, val):
        """Texts that are not empty if `fn` returns this."""
        key = (fn.path, val)
        if key not in self.bools:
            self.bools[key] = []
            exits = self.run(fn)
            if exits and fn.locals[0].s == "bool":
                I = self.runs[fn.path][0]
                out = []
                for c in self.candidates(fn):
                    for st, v in exits:
                        for x in I.phi_inputs(v):
                            if x.op == "const":
                                if x.a[1] is not val:
                                    continue
                                fs = st.facts
                            else:
                                fs = dict(st.facts)
                                fs[x] = val
                            if not Progress(self, I, fs).is_nonempty(c):
                                break
                        else:
                            continue
                        break
                    else:
                        out.append(c)
                self.bools[key] = out
        return self.bools[key]

    def charset(self, clo):
        """(characters, is it these or all others) a predicate accepts."""
        if clo.op != "clo" or clo.a[0] not in self.p.fns:
            return None
        fn = self.p.fns[clo.a[0]]
        ex = self.run(fn)
        I = self.runs[fn.path][0]
        chars = set()
        arg = T("p", 2)
        for st, v in ex:
            for t in list(st.facts) + [v]:
                for x in subterms(t):
                    if x.op == "const" and x.a[0] == "int" or x.op == "const" and x.a[0] == "str":
                        chars.add(x)
        if len(ex) != 1:
            return None
        v, flip = ex[0][1], False
        while v.op == "un" and v.a[0] == "Not":
            v, flip = v.a[1], not flip
        if v.op == "bin" and v.a[0] in ("Eq", "Ne") and arg in v.a[1:]:
            c = [x for x in v.a[1:] if x is not arg]
            if c and c[0].op == "const":
                return (frozenset([c[0]]), (v.a[0] == "Eq") is not flip)
            x = c[0] if c else v
            if x.op == "f" and x.a[0] is T("p", 1) and x.a[1] is None and x.a[2].isdigit() and int(x.a[2]) < len(clo.a[1]):
                x = clo.a[1][int(x.a[2])]    # the captured value
                if x.op != "ref":
                    return (frozenset([x]), (v.a[0] == "Eq") is not flip)
        return None

    # -- loops

    def repeat(self, I, fr, h, s1, s2):
        """One way back to the head `h` of a loop."""
        how = self.progress(I, fr, h, s1, s2)
        self.switch(I, fr, h, s1, s2, how)
        self.found.setdefault((fr.fn.path, h), []).append((how, fr, I))

    def switch(self, I, fr, h, s1, s2, how):
        """Notes which flags (a truth value or the kind of an enum value) this
        way changes, from which value, and to which."""
        out = {}
        for k, v in s1.store.items():
            w = s2.store.get(k)
            root, path = k
            if w is v or not (isinstance(root, tuple) and root[0] == "L" and root[1] == fr.id):
                continue
            new = {x.a[1] if x.op in ("const", "agg") else None for x in (I.phi_inputs(w) if w is not None else ())}
            new = new.pop() if len(new) == 1 else None
            old = s2.facts.get(v)
            if isinstance(old, bool):
                old = frozenset([old])
            if old is None and all(x.op in ("const", "agg") for x in I.phi_inputs(v)):
                old = frozenset(x.a[1] for x in I.phi_inputs(v))
            out[(root[2:], path)] = (new, old is not None and new not in old if isinstance(new, (bool, str)) else False)
        self.flags.setdefault((fr.fn.path, h), []).append((how, out))

    def switched(self, key):
        """Whether on each way that makes no other progress some flag is
        switched that no way ever switches back."""
        ways = self.flags.get(key, [])
        for how, out in ways:
            if how is None and not any(sure and all(o.get(k, (new, 0))[0] == new and type(o.get(k, (new, 0))[0]) is type(new) for _, o in ways)
                                       for k, (new, sure) in out.items()):
                return False
        return bool(ways)

    def progress(self, I, fr, h, s1, s2):
        heads = [v2 for k, v in s1.store.items() if s2.store.get(k, v) is not v for v2, _ in pairs(I, v, s2.store[k])]
        pr = Progress(self, I, s2.facts, stops=heads)
        if contradictory(pr, s2.facts):
            return "not reachable"
        for k, v in s1.store.items():
            w = s2.store.get(k)
            if w is None or w is v:
                continue
            if self.iterated(I, pr, v, w, s2, fr, k):
                return "an iterator"
        for k, v in s1.store.items():
            w = s2.store.get(k)
            if w is None or w is v:
                continue
            for v2, w2 in pairs(I, v, w):
                if pr.adv(w2, v2) == 1:
                    return "a text"
        for k, v in s1.store.items():
            w = s2.store.get(k)
            if w is None or w is v:
                continue
            if pr.adv_int(w, v) == 1:
                if self.bounded(pr, w, v, s1, s2):
                    return "an offset or counter"
            if self.shorter(pr, v, w):
                return "a string"
        return None

    def iterated(self, I, pr, v, w, st, fr, k, seen=()):
        t = w
        while t is not v and t.op in ("mut", "phi"):
            if t.op == "phi":
                if t in seen:
                    return True
                ins = [x for x in I.phi_inputs(t)]
                return bool(ins) and all(self.iterated(I, pr, v, x, st, fr, k, seen + (t,)) for x in ins)
            name, idx, args, site = t.a
            if last(name) in ("next", "next_back", "nth"):
                if args[idx] is v or self.came_from(I, args[idx], v):
                    if not any("::%s<" % e in name or "::%s " % e in name for e in ENDLESS) and self.finite(fr, k, name, v):
                        f = [val for u, val in st.facts.items() if u.op == "call" and u.a[0] == name and u.a[-1] == site]
                        if frozenset(["Some"]) in f:
                            return True
            t = args[idx]
        return False

    def came_from(self, I, x, v):
        n = 0
        while x is not v and x.op == "mut" and n < 10:
            x = x.a[2][x.a[1]]
            n += 1
        return x is v

    def finite(self, fr, k, name, v):
        """Whether the iterator's type yields finitely many items."""
        root, path = k
        ty = None
        if isinstance(root, tuple) and root[0] == "L" and root[1] == fr.id and isinstance(root[2], int) and not path:
            ty = fr.fn.locals[root[2]]
        text = ty.s if ty is not None else name
        import re
        return not any(re.search(r"\b%s\b" % e, text) for e in ENDLESS) and any(re.search(r"\b%s\b" % e, text + name) for e in FINITE)

    def bounded(self, pr, w, v, s1, s2):
        """The number is an offset into a text, or the loop is repeated only
        while some finite collection has what the number names, or while it is
        below a limit the loop leaves alone."""
        if pr.offset_of(w) is not None:
            return True
        if w.op == "phi" and all(pr.offset_of(x) is not None for x in pr.I.phi_inputs(w)):
            return True
        for t, val in s2.facts.items():
            if t.op == "bin" and isinstance(val, bool):
                op, a, b = t.a
                less = (op == "Lt" and val) or (op == "Ge" and not val) or (op == "Le" and val) or (op == "Gt" and not val)
                if not less:
                    a, b = b, a
                    if op == "Eq" or op == "Ne":
                        continue
                if (a is v or a is w) and not any(x is v for x in subterms(b)) and not self.varies(pr, b, s1, s2):
                    return True
            if val is True and t.op == "call" and any(n in last(t.a[0]) for n in ("contains", "has_", "is_", "exists")) and len(t.a[1]) >= 2:
                if any(x is v for y in t.a[1][1:] for x in pr.I.deepterms(y)) and not self.varies(pr, t.a[1][0], s1, s2):
                    return True
            if t.op == "call" and val == frozenset(["Some"]) and last(t.a[0]) in ("get", "get_mut", "nth") and any(
                    x is v for y in t.a[1][1:] for x in pr.I.deepterms(y)):
                return True
        return False

    def varies(self, pr, t, s1, s2):
        ch = {v for k, v in s1.store.items() if s2.store.get(k) is not None and s2.store[k] is not v}
        return any(x in ch for x in subterms(t))

    def shorter(self, pr, v, w):
        """`replace(v, d, s)` where v contains d and d is longer than s."""
        if w.op != "call" or last(w.a[0]) not in ("replace", "replacen") or w.a[1][0] is not v:
            return False
        d, s = w.a[1][1], w.a[1][2]
        for t, val in pr.facts.items():
            if val is True and t.op == "call" and last(t.a[0]) == "contains" and t.a[1][0] is v and t.a[1][1] is d:
                if d.op == "fmt":
                    parts = [x for x in d.a[0] if not (isinstance(x, str) and not x)]
                    hit = [x for x in parts if x is s or not isinstance(x, str) and s in list(subterms(x))]
                    rest = list(parts)
                    if hit:
                        rest.remove(hit[0])
                        if any((isinstance(x, str) and x) or (not isinstance(x, str) and self.ne(pr, x, s)) for x in rest):
                            return True
                a, b = const_text(d), const_text(s)
                if a is not None and b is not None and len(a) > len(b):
                    return True
                if d.op == "call" and last(d.a[0]) == "repeat" and d.a[1][0] is s and pr.is_nonempty(s):
                    n = d.a[1][1]
                    if n.op == "const" and isinstance(n.a[1], int) and n.a[1] > 1:
                        return True
        return False

    def ne(self, pr, x, s):
        return pr.is_nonempty(x) or (s in list(subterms(x)) and pr.is_nonempty(s))


class Quiet(P05):
    backedge = None

    def flagkey(self, I, st, fr):
        """Ways that test the same rest of different texts are kept apart."""
        r = tuple(super().flagkey(I, st, fr))
        if self.check.cutters:
            r += (frozenset(t for t, v in st.facts.items() if v is False and t.op == "call" and last(t.a[0]) == "is_empty" and self.rest(t)),)
        return r

    def rest(self, t):
        for i in range(6):
            if t.op != "call" or not t.a[1]:
                return False
            if t.a[0] in self.check.cutters:
                return True
            t = t.a[1][0]
        return False


def contradictory(pr, facts):
    """Facts that cannot hold together: a rest that begins where a character
    was found begins with that character."""
    if any(a in bs for a, bs in pr.later.items()):
        return True
    for t, val in facts.items():
        if t.op == "call" and len(t.a[1]) == 2 and t.a[1][0] is t.a[1][1] and last(t.a[0]) in ("eq", "ne") and val is (last(t.a[0]) == "ne"):
            return True
        if t.op == "call" and last(t.a[0]) in ("strip_prefix", "starts_with") and val in (frozenset(["None"]), False):
            s, c = t.a[1][0], t.a[1][1]
            for v in rests(pr, s):
                if v.op == "call" and last(v.a[0]) == "index" and v.a[1][1].op == "agg":
                    f = dict(zip(v.a[1][1].a[2], v.a[1][1].a[3]))
                    n = f.get("start")
                    if n is not None and n.op == "call" and last(n.a[0]) == "min":
                        n = [x for x in n.a[1] if length_of(x) is None][:1]
                        n = n[0] if n else None
                    if n is not None and n.op == "f" and n.a[1] == "Some" and n.a[0].op == "call" and last(n.a[0].a[0]) == "find":
                        y = n.a[0]
                        if y.a[1][1] is c and pr.canon(y.a[1][0]) is pr.canon(v.a[1][0]):
                            return True
    return False


def rests(pr, s, d=0):
    """What `s` unfolds to."""
    s = pr.canon(s)
    yield s
    if d > 8:
        return
    path, t = [], s
    while t.op == "f":
        path.insert(0, (t.a[1], t.a[2]))
        t = t.a[0]
    if t.op == "call" and t.a[0] in pr.check.p.fns:
        fn = pr.check.p.fns[t.a[0]]
        vs = pr.check.unfold(fn, tuple(path))
        for v in vs:
            v = pr.subst(v, t.a[1])
            if v is not None:
                yield from rests(pr, v, d + 1)
        if not vs and not path:
            # slicing: the part it was given
            for cand, k0, k1, k2, others in pr.check.summary(fn, ()):
                if k0 == 0 and k1 == 0:
                    a = pr.subst(cand, t.a[1])
                    if a is not None and pr.canon(a).op == "call" and last(pr.canon(a).a[0]) == "index":
                        yield from rests(pr, a, d + 1)


def pairs(I, v, w, d=0):
    """Corresponding parts of a value before and after an iteration."""
    yield v, w
    if d == 0 and v.op == "phi" and w.op in ("f", "call", "phi"):
        for n in ("after", "item", "source", "block_start"):
            yield T("f", v, None, n), I.proj1(w, n)
    if d < 3 and v.op == "agg" and w.op == "agg" and v.a[:3] == w.a[:3]:
        for x, y in zip(v.a[3], w.a[3]):
            if x is not y:
                yield from pairs(I, x, y, d + 1)
    if d < 3 and v.op == "phi" and w.op == "agg":
        for n, y in zip(w.a[2], w.a[3]):
            yield T("f", v, w.a[1] if I.is_enum(w.a[0]) else None, n), y
    if d < 3 and v.op == "tuple" and w.op == "tuple" and len(v.a[0]) == len(w.a[0]):
        for x, y in zip(v.a[0], w.a[0]):
            if x is not y:
                yield from pairs(I, x, y, d + 1)


def check(p, rep):
    ck = Check(p, rep)
    from engine.interp import known_fns
    roots = [fn for fn in p.fns.values() if fn.kind != "const" and loop_heads(fn)]
    done = set()
    for fn in sorted(roots, key=lambda f: (f.path not in known_fns(), f.path)):
        heads = loop_heads(fn)
        if fn.path not in known_fns() and all((fn.path, h) in ck.found for h in heads):
            continue
        I = Interp(p, P05(p, ck))
        I.run(fn)
    for fn in sorted(roots, key=lambda f: f.path):
        for h in sorted(loop_heads(fn)):
            res = ck.found.get((fn.path, h))
            span = fn.blocks[h]["t"]["s"]
            if res is None:
                rep.ob("loop in %s: never repeated" % fn.path, loc(span))
                continue
            bad = [r for r in res if r[0] is None]
            if bad and ck.switched((fn.path, h)):
                rep.ob("loop in %s: %d ways round: a flag, otherwise %s" % (fn.path, len(res), ", ".join(sorted({r[0] for r in res if r[0]}))), loc(span))
            elif bad:
                rep.bad("loop in %s" % fn.path, span, "on some way through this loop of %s nothing gets nearer to an end: no text is consumed, no iterator advanced" % fn.path)
            else:
                rep.ob("loop in %s: %d ways round: %s" % (fn.path, len(res), ", ".join(sorted({r[0] for r in res}))), loc(span))

    recursion(p, rep, ck)


# -- recursion

PLAIN_TRAITS = ("Debug", "Display", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Clone", "Default", "Drop")


def components(nodes, edges):
    """Strongly connected components that contain a cycle."""
    index, low, stack, on, out, count = {}, {}, [], set(), [], [0]

    def visit(v):
        index[v] = low[v] = count[0]
        count[0] += 1
        stack.append(v)
        on.add(v)
        for w in edges.get(v, ()):
            if w not in nodes:
                continue
            if w not in index:
                visit(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = set()
            while True:
                w = stack.pop()
                on.discard(w)
                c.add(w)
                if w == v:
                    break
            if len(c) > 1 or v in edges.get(v, ()):
                out.append(c)
    for v in sorted(nodes, key=str):
        if v not in index:
            visit(v)
    return out


def recursion(p, rep, ck):
    def plain(fn):
        return fn.derived or (fn.trait and p.last(fn.trait) in PLAIN_TRAITS) or "self_cell" in fn.path

    edges = p.edges()
    nodes = {f for f in edges if f in p.fns and not plain(p.fns[f])}
    from checks import c06
    limited = c06.limited(p)
    for comp in components(nodes, edges):
        # What calls what, with the kinds of the arguments where these are
        # constants.
        graph, todo, calls = {}, [], {}
        for f in comp:
            todo.append((f, ()))
        while todo:
            node = todo.pop()
            if node in graph:
                continue
            graph[node] = set()
            for target, how in calls_of(p, ck, node, comp).items():
                graph[node].add(target)
                calls[node, target] = how
                todo.append(target)
        # Only what is reached from outside matters.
        entry = set()
        for g in nodes - comp:
            for h in edges[g]:
                if h in comp:
                    entry.add((h, ()))
        live, todo = set(), list(entry) or list(graph)
        while todo:
            x = todo.pop()
            if x not in live:
                live.add(x)
                todo.extend(graph.get(x, ()))
        for c in components({x for x in live if x[0] not in limited}, graph):
            names = sorted({x[0] for x in c})
            where = p.fns[names[0]].span
            why = measured(p, ck, c, graph, calls)
            for a in sorted(c, key=str):
                for b in sorted(graph[a] & c, key=str):
                    rep.ob("recursive call of %s in %s" % (b[0], a[0]), loc(p.fns[a[0]].span))
            if why is not None:
                rep.bad("recursion of " + ", ".join(short(p, x) for x in names), where, why)
        for x in sorted(comp & limited):
            rep.ob("recursion of %s: limited in depth (C06)" % x, loc(p.fns[x].span))


def short(p, path):
    fn = p.fns[path]
    return (p.last(fn.self_adt) + "::" if fn.self_adt else "") + fn.name


def calls_of(p, ck, node, comp):
    """The recursive calls that a function makes, given the kinds of its
    arguments: target -> [how its texts relate to those of the function]."""
    path, kinds = node
    fn = p.fns[path]
    out = {}

    class C(Policy):
        max_states = 40

        def enter(self, I, ctx, f, depth):
            return f.path not in comp and (super().enter(I, ctx, f, depth) or f.self_adt is not None and f.self_adt.endswith("::MatchedItem"))

        def call(self, I, st, ctx):
            c = ctx.callee
            if c is None:
                return None
            direct = c.path in comp
            for t in ({c.path} if direct else targets(p, c) & comp):
                g = p.fns[t]
                ks = []
                if direct:
                    for i, a in enumerate(ctx.args):
                        k = kind_of(I, st, a)
                        if k is not None and i < g.argc:
                            ks.append((i + 1, k))
                how = {}
                pr = Progress(ck, I, st.facts)
                if not contradictory(pr, st.facts):
                    for i, x in enumerate(entry_texts(p, ck, fn)):
                        for j, y in enumerate(entry_texts(p, ck, g)):
                            if direct:
                                z = pr.subst(y, ctx.args)
                            else:
                                z = ctx.args[1] if y.op == "p" and y.a[0] == 2 and len(ctx.args) > 1 and ctx.callee.name.startswith("replace") else None
                            how[i, j] = -1 if z is None else pr.adv(z, x)
                    out.setdefault((t, tuple(ks)), []).append((how, ctx.span))
            return I.opaque(st, ctx, ctx.fr) if direct else None

    I = Interp(p, C())
    facts = {T("p", i): frozenset([v]) for i, v in kinds}
    I.run(fn, facts=facts)
    # calls that are not analysed in place
    seen = {t for t, _ in out}
    for t in p.edges()[path] & comp:
        if t not in seen and p.fns[t].kind == "closure":
            out.setdefault((t, ()), []).append(({}, fn.span))
    return out


def targets(p, c):
    """Local functions that a call of a foreign function, or of a trait's
    function, may call."""
    out = set()
    e = getattr(p, "_adt_impls", None)
    if e is None:
        e = p._adt_impls = {}
        for im in p.impls:
            a = im["_self"].adt()
            for it in im["items"]:
                from engine.facts import norm
                if a and im["_trait"]:
                    e.setdefault(("adt", a), []).append((im["_trait"], norm(it["path"])))
                if "trait_item" in it:
                    e.setdefault(("item", norm(it["trait_item"])), []).append(norm(it["path"]))
    if c.kind in ("virtual", "unresolved"):
        out |= set(e.get(("item", c.decl), ()))
        out.add(c.decl)
    if not c.local:
        for ga in c.args:
            for x in ga.walk():
                if x.k == "fndef":
                    out.add(x.d)
                if x.k == "adt" and x.raw.get("local"):
                    out |= {q for tr, q in e.get(("adt", x.d), ()) if not tr.startswith("crate::")}
    return {x for x in out if x in p.fns and not (p.fns[x].trait and p.last(p.fns[x].trait) in PLAIN_TRAITS)}


def kind_of(I, st, a):
    ks = set()
    for x in I.phi_inputs(a):
        if x.op == "agg" and I.is_enum(x.a[0]):
            ks.add(x.a[1])
        elif isinstance(st.facts.get(x), frozenset) and len(st.facts[x]) == 1:
            ks.add(next(iter(st.facts[x])))
        else:
            return None
    return ks.pop() if len(ks) == 1 else None


def entry_texts(p, ck, fn):
    """The texts a function is given; for a replacer, what was matched."""
    r = ck.candidates(fn)
    if fn.name == "replace_append":
        r = [T("p", 2)]
    return r


def measured(p, ck, comp, graph, calls):
    """None if every cycle shortens some text, else what is wrong."""
    import itertools
    nodes = sorted(comp, key=str)
    fns = sorted({x[0] for x in nodes})
    cands = [range(len(entry_texts(p, ck, p.fns[f]))) for f in fns]
    total = 1
    for c in cands:
        total *= len(c)
    if not total or total > 2000:
        return "%s call each other, and get no text" % ", ".join(fns)
    best = None
    for choice in itertools.product(*cands):
        pick = dict(zip(fns, choice))
        weak, wrong = {}, None
        for a in nodes:
            for b in graph[a] & comp:
                for how, span in calls[a, b] :
                    r = how.get((pick[a[0]], pick[b[0]]), -1)
                    if r < 0:
                        wrong = "%s calls %s (%s) with a text that is not a part of its own" % (a[0], b[0], loc(span))
                    elif r == 0:
                        weak.setdefault(a, set()).add(b)
        if wrong is None:
            c = components(comp, weak)
            if not c:
                return None
            wrong = "%s can call each other without end: no call passes a part of the text that begins later" % ", ".join(sorted({x[0] for x in c[0]}))
            best = wrong
        best = best or wrong
    return best
