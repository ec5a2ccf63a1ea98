"""At each place where text is cut (a slice by byte positions, a split or a
truncation, directly or through a function of Span that passes the positions
on), the positions are reduced to a known place in the text (its beginning, its
end, a place that was searched for or iterated to) and a fixed number of bytes
before or after it. If that number is not zero, the text must be known to have
that many characters of one byte there: from a test on the way to the cut (a
test of a text that begins or ends at the same place counts), or because every
match of the pattern that the text was matched by has them there. If bytes are
cut off at both ends, the text must be known to have room for both."""

from checks.common import *
from checks.c05 import Check as Base, Progress, last, const_text, length_of, substitute, project
from checks.c02 import (Patterns, Calls, Reads, handles, is_get, is_index, group, TAKE, CAP, runs_patterns)
from engine.interp import Interp, Policy, T, show, subterms, known_fns
from engine.rx import Nfa, members, SAMPLES

TECH = "path-sensitive dataflow over every cut of a text, with character-set knowledge from tests and from the patterns' automata"
NOTE = ("All slices, splits and truncations of str, String and Span. Decided are cuts that a fixed number of bytes shifts from the beginning, "
        "the end, or a place found in the text. Not decided (listed in the evidence): cuts of text that a loop replaces and does not test, "
        "of text assembled before, and positions computed in other ways.")

ASCII = frozenset(range(128))
ALL = frozenset(range(len(SAMPLES)))
INDEX = {}
for _i, _c in enumerate(SAMPLES):
    INDEX.setdefault(_c, _i)
START = {"trim_end", "trim_end_matches"}
END = {"trim_start", "trim_start_matches"}
SEARCH = {"find": 0, "rfind": 0, "position": 0}


def one(c):
    return frozenset([INDEX[c]]) if c in INDEX else ALL - ASCII


def sets_of(s):
    return tuple(one(chr(c) if isinstance(c, int) else c) for c in s)


def alike(a, b):
    return "tuple" if not a else a


def worse(ks):
    """What holds for each: sets united, up to the shortest."""
    ks = list(ks)
    n = min((len(k) for k in ks), default=0)
    return tuple(frozenset().union(*(k[i] for k in ks)) for i in range(n))


def meet(a, b):
    """Both hold."""
    if len(b) > len(a):
        a, b = b, a
    return tuple((x & b[i]) if i < len(b) else x for i, x in enumerate(a))


def ascii_run(k):
    n = 0
    while n < len(k) and k[n] <= ASCII:
        n += 1
    return n


UNDERSTOOD = {"starts_with", "ends_with", "strip_prefix", "strip_suffix", "is_empty", "contains", "find", "rfind", "split_once", "rsplit_once",
              "next", "next_back", "first", "last", "is_some_and", "get", "index", "position", "parse", "matches", "lines", "trim", "len"} \
    | {"is_match", "captures", "captures_iter", "find_at", "captures_at"}


class Chars:
    """Sets of characters that predicates accept, by evaluating the terms they
    return for each sample character."""

    def __init__(self, base):
        self.base = base
        self.memo = {}

    def accepted(self, path, arg, env=()):
        key = (path, arg, env)
        if key not in self.memo:
            self.memo[key] = None
            fn = self.base.p.fns.get(path)
            if fn is not None and fn.argc >= arg:
                ex = self.base.run(fn)
                x = T("p", arg)
                out = set()
                other = {u.a[1] for st, v in ex for t in list(st.facts) + [v] for u in subterms(t) if u.op == "const" and isinstance(u.a[1], str) and len(u.a[1]) == 1}
                other |= {e.a[1] for e in env if e.op == "const" and isinstance(e.a[1], str) and len(e.a[1]) == 1}
                other |= {chr(val[1]) for st, v in ex for val in st.facts.values() if isinstance(val, tuple) and len(val) == 2 and val[0] == "int" and 0 <= val[1] < 0x110000}
                other = {c for c in other if c not in INDEX}
                for i, c in list(enumerate(SAMPLES)) + [(None, c) for c in sorted(other)]:
                    for st, v in ex:
                        r = self.value(v, x, c, env)
                        if r is False:
                            continue
                        if any(self.refuted(t, val, x, c, env) for t, val in st.facts.items()):
                            continue
                        out |= {i} if i is not None else ALL - ASCII
                        break
                self.memo[key] = frozenset(out)
        return self.memo[key]

    def refuted(self, t, val, x, c, env):
        r = self.value(t, x, c, env)
        if r is None:
            return False
        if isinstance(val, tuple) and val and val[0] == "notint":
            return num(r) in val[1]
        if isinstance(val, tuple) and val and val[0] == "int":
            return num(r) != val[1]
        if isinstance(val, (bool, int)):
            return num(r) != num(val)
        if isinstance(val, str) and isinstance(r, str):
            return r != val
        return False

    def value(self, t, x, c, env, d=0):
        """bool, str (a character) or None"""
        if t is x:
            return c
        if d > 20:
            return None
        if t.op == "const":
            return t.a[1]
        if t.op in ("cast", "ref"):
            return None if t.op == "ref" else self.value(t.a[0], x, c, env, d + 1)
        if t.op == "un" and t.a[0] == "Not":
            r = self.value(t.a[1], x, c, env, d + 1)
            return None if not isinstance(r, bool) else not r
        if t.op == "f" and t.a[1] is None and t.a[0] is T("p", 1) and t.a[2].isdigit() and int(t.a[2]) < len(env):
            e = env[int(t.a[2])]
            return e.a[1] if e.op == "const" else None
        if t.op == "bin":
            a, b = self.value(t.a[1], x, c, env, d + 1), self.value(t.a[2], x, c, env, d + 1)
            if a is None or b is None:
                return None
            a, b = num(a), num(b)
            if isinstance(a, str) or isinstance(b, str):
                return None
            return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b,
                    "BitOr": (a | b), "BitAnd": (a & b)}.get(t.a[0])
        if t.op == "call" and t.a[1]:
            r = self.value(t.a[1][0], x, c, env, d + 1)
            n = last(t.a[0])
            if isinstance(r, str) and len(r) == 1:
                f = TESTS.get(n)
                if f:
                    return f(r)
                if n in ("eq", "ne") and len(t.a[1]) == 2:
                    o = self.value(t.a[1][1], x, c, env, d + 1)
                    if isinstance(o, str):
                        return (r == o) is (n == "eq")
        return None


TESTS = {
    "is_ascii": lambda c: ord(c) < 128,
    "is_ascii_alphanumeric": lambda c: ord(c) < 128 and c.isalnum(),
    "is_ascii_alphabetic": lambda c: ord(c) < 128 and c.isalpha(),
    "is_ascii_digit": lambda c: c in "0123456789",
    "is_ascii_lowercase": lambda c: "a" <= c <= "z",
    "is_ascii_uppercase": lambda c: "A" <= c <= "Z",
    "is_ascii_punctuation": lambda c: 32 < ord(c) < 127 and not c.isalnum(),
    "is_ascii_whitespace": lambda c: c in " \t\n\r\x0c",
    "is_whitespace": lambda c: c.isspace() and c not in "\x1c\x1d\x1e\x1f" or c == "\x85",
    "is_alphanumeric": lambda c: c.isalnum(),
    "is_alphabetic": lambda c: c.isalpha(),
    "is_numeric": lambda c: c.isnumeric(),
}


def num(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, str) and len(v) == 1:
        return ord(v)
    return v


class Knowledge:
    """What is known of texts in one state."""

    def __init__(self, ck, I, st, reads):
        self.ck, self.I, self.facts, self.st, self.reads = ck, I, st.facts, st, reads
        self.pr = Progress(ck.base, I, st.facts)
        self.memo = {}
        self.tests = {}
        self.linked = set()     # characters that are equal to some other that is not known
        for t, val in st.facts.items():
            self.learn(t, val)
        self.upward()
        for t, val in st.facts.items():
            if t.op == "bin" and t.a[0] in ("Eq", "Ne") and val is (t.a[0] == "Eq") and not any(x.op == "const" for x in t.a[1:]):
                for x, y in (t.a[1:], t.a[1:][::-1]):
                    ks = list(self.tests.get(("char", y), ()))
                    if ks:
                        self.tests.setdefault(("char", x), []).extend(ks)
                    else:
                        self.linked.add(x)

    def upward(self):
        """What is known of a part holds for the whole."""
        todo = [(k, d, 0) for k, v in self.tests.items() if k[0] != "char" for d in v]
        for (x, end), k, d in todo:
            found = [(y, 0) for y, cut in self.same(x, end)]
            if end:
                y, a, b = self.part(x) or (None, None, None)
                j = self.before_end(y, b) if b is not None else None
                if j:
                    found.append((y, j))
            for y, j in found:
                y = self.canon(y)
                m = k + (ALL,) * j
                if m not in self.tests.get((y, end), ()):
                    self.note(y, m, end)
                    if d < 4:
                        todo.append(((y, end), m, d + 1))

    def part(self, x):
        """(text, first position or None, last position or None) if x is a part of a text."""
        path, t = [], x
        while t.op == "f":
            path.insert(0, (t.a[1], t.a[2]))
            t = t.a[0]
        if t.op != "call" or not t.a[1]:
            return None
        if last(t.a[0]) == "split_at" and len(t.a[1]) == 2 and path in ([(None, "0")], [(None, "1")]):
            return (t.a[1][0], None, t.a[1][1]) if path[0][1] == "0" else (t.a[1][0], t.a[1][1], None)
        return self.ck.positions(self, t, tuple(path))

    def before_end(self, y, b):
        """How many bytes before the end of y the position b is."""
        ps = self.ck.lin(self, b)
        if len(ps) == 1 and ps[0][0][0] == "length" and ps[0][0][1] is self.canon(y) and ps[0][1] <= 0:
            return -ps[0][1]
        return None

    def canon(self, t):
        for _ in range(20):
            u = self.pr.canon(t)
            if u.op == "ref":
                u = self.I.deep(self.st, u)
            if u.op == "call" and u.a[0] == "captures.get" and False:
                return u
            if u is t:
                return t
            t = u
        return t

    # -- tests

    def learn(self, t, val):
        if t.op == "call" and len(t.a[1]) == 2:
            n = last(t.a[0])
            if val is True and n in ("starts_with", "ends_with"):
                k = self.pattern(t.a[1][1])
                if k:
                    self.note(t.a[1][0], k, n == "ends_with")
            if isinstance(val, frozenset) and val == frozenset(["Some"]) and n in ("strip_prefix", "strip_suffix"):
                k = self.pattern(t.a[1][1])
                if k:
                    self.note(t.a[1][0], k, n == "strip_suffix")
            if n in ("eq", "ne") and val is (n == "eq"):
                for x, y in (t.a[1], t.a[1][::-1]):
                    z = self.I.deep(self.st, y)
                    if z.op == "agg" and z.a[1] == "Some":
                        k = self.pattern(z.a[3][0])
                        if k:
                            self.char(T("f", self.canon(x), "Some", "0"), k)
                        continue
                    s = const_text(self.canon(y))
                    if s is not None and not isinstance(s, bytes) or isinstance(s, bytes):
                        if not self.char(x, sets_of(s)):
                            self.note(x, sets_of(s), False)
                            self.note(x, sets_of(s), True)
        if isinstance(val, frozenset) and val == frozenset(["Some"]) and t.op == "call" and t.a[0] in self.ck.p.fns:
            for x, y, end in self.ck.promises(self.ck.p.fns[t.a[0]]):
                x, y = substitute(x, t.a[1], self.I), substitute(y, t.a[1], self.I)
                k = self.pattern(y) if x is not None and y is not None else None
                if k:
                    self.note(x, k, end)
        if t.op == "bin" and t.a[0] in ("Eq", "Ne") and val is (t.a[0] == "Eq"):
            for x, y in (t.a[1:], t.a[1:][::-1]):
                for z in (self.I.phi_inputs(y) if y.op == "phi" else [y]):
                    if z.op != "const" or isinstance(z.a[1], bool) or not isinstance(z.a[1], (str, int)) or isinstance(z.a[1], int) and not 0 <= z.a[1] < 0x110000:
                        break
                else:
                    k = worse([sets_of(z.a[1] if isinstance(z.a[1], str) else chr(z.a[1])) for z in (self.I.phi_inputs(y) if y.op == "phi" else [y])])
                    self.char(x, k)
        if isinstance(val, tuple) and len(val) == 2 and val[0] == "int":
            val = val[1]
        if isinstance(val, (int, str)) and not isinstance(val, bool):
            c = chr(val) if isinstance(val, int) and 0 <= val < 0x110000 else val
            if isinstance(c, str) and len(c) == 1:
                self.char(t, (one(c),))
        if val is True and t.op == "call" and len(t.a[1]) == 1 and last(t.a[0]) in TESTS:
            self.char(t.a[1][0], (frozenset(i for i, c in enumerate(SAMPLES) if TESTS[last(t.a[0])](c)),))
        if val is True and t.op == "call" and len(t.a[1]) == 2 and last(t.a[0]) == "is_some_and":
            k = self.pattern(t.a[1][1])
            if k:
                self.char(T("f", self.canon(t.a[1][0]), "Some", "0"), k)
        if val is True and t.op == "call" and t.a[0] in self.ck.p.fns:
            for i, a in enumerate(t.a[1]):
                k = self.ck.chars.accepted(t.a[0], i + 1) if self.ck.p.fns[t.a[0]].locals[i + 1].s == "char" else None
                if k is not None:
                    self.char(a, (k,))

    def note(self, x, k, end):
        x = self.canon(x)
        if self.cut_phi(x):
            pass
        self.tests.setdefault((x, end), []).append(k)

    def cut_phi(self, x):
        return False

    def char(self, x, k):
        """x is the first or last character of a text."""
        x0 = x
        while x.op == "call" and last(x.a[0]) in ("clone", "deref", "to_owned") and len(x.a[1]) == 1:
            x = x.a[1][0]
        key = ("char", x)
        self.tests.setdefault(key, []).append(k)
        if x.op == "idx" and x.a[1].op == "const" and x.a[1].a[1] in (0, -1):
            self.note(x.a[0], k, x.a[1].a[1] != 0)
            return True
        if x.op == "f" and x.a[1] is None and x.a[2] == "1":
            x = x.a[0]
        if x.op == "f" and x.a[1] == "Some" and x.a[0].op == "call":
            c = x.a[0]
            n = last(c.a[0])
            it = c.a[1][0] if c.a[1] else None
            if it is not None and n in ("first", "last") and not (it.op == "call" and last(it.a[0]) in ("chars", "char_indices", "bytes", "iter")):
                self.note(it, k, n == "last")
                return True
            if it is not None and n in ("next", "next_back", "last", "first", "nth") and it.op == "call" and last(it.a[0]) in ("chars", "char_indices", "bytes", "as_bytes", "iter"):
                if n != "nth":
                    self.note(it.a[1][0], k, n in ("next_back", "last"))
                return True
        return False

    def pattern(self, t, d=0):
        """The characters that a text found by this pattern has."""
        t = self.canon(t)
        if t.op == "const":
            s = t.a[1]
            return sets_of(s) if isinstance(s, (str, bytes)) else (sets_of(chr(s)) if isinstance(s, int) and not isinstance(s, bool) else None)
        if t.op in ("array", "tuple"):
            vs = t.a[0]
            if vs and all(v.op == "const" and isinstance(v.a[1], str) and len(v.a[1]) == 1 for v in vs):
                return (frozenset().union(*(one(v.a[1]) for v in vs)),)
            return None
        if t.op == "clo":
            k = self.ck.chars.accepted(t.a[0], 2, t.a[1] if isinstance(t.a[1], tuple) else ())
            return (k,) if k is not None else None
        if t.op == "fn":
            k = self.ck.chars.accepted(t.a[0], 1)
            return (k,) if k is not None else None
        if t.op == "phi" and d < 3:
            ks = [self.pattern(x, d + 1) for x in self.I.phi_inputs(t)]
            return worse(ks) if ks and all(k for k in ks) else None
        return self.ends(t, False) or None

    # -- texts

    def ends(self, x, end, d=0):
        """Sets of the first (last) characters that x certainly has."""
        x = self.canon(x)
        key = (x, end)
        if key in self.memo:
            return self.memo[key]
        if d > 8:
            return ()
        self.memo[key] = ()
        k = self.find(x, end, d)
        self.memo[key] = k
        return k

    def find(self, x, end, d):
        best = ()

        def better(k):
            nonlocal best
            if end:
                best = tuple(reversed(meet(tuple(reversed(best)), tuple(reversed(k)))))
            else:
                best = meet(best, k)

        s = const_text(x)
        if s is not None:
            return sets_of(s)
        for k in self.tests.get((x, end), ()):
            better(k)
        if x.op == "phi":
            ks = [self.ends(y, end, d + 1) for y in sorted(self.I.phis.get(x, ()), key=lambda u: u.id)]
            if ks:
                if end:
                    better(tuple(reversed(worse(tuple(reversed(k)) for k in ks))))
                else:
                    better(worse(ks))
            return best
        if x.op == "fmt":
            ps = x.a[0]
            if ps:
                y = ps[-1] if end else ps[0]
                better(sets_of(y) if isinstance(y, str) else self.ends(y, end, d + 1))
            return best
        if not end and x.op == "call" and x.a[0] == "captures.index" and x.a[1][1].op == "const" and x.a[1][1].a[1] == 0:
            for y in self.ck.leading(self, x.a[1][0]):
                better(self.ends(y, False, d + 1))
        g = self.ck.matched(self, x, end, best)
        if g:
            better(g)
        for pred in self.filters(x):
            for k in pred.get(end, ()):
                better(k)
        y, start, stop = (not end and self.part(x)) or (None, None, None)
        if start is not None and stop is None:
            z = length_of(start)
            g = self.ck.after_group(self, self.canon(y), self.canon(z)) if z is not None else None
            if g:
                better(g)
            if start.op == "const":
                k = self.ends(y, False, d + 1)
                if ascii_run(k) >= start.a[1]:
                    better(k[start.a[1]:])
        if y is not None and start is None and stop is not None:
            y = self.canon(y)
            j = self.before_end(y, stop)
            if j:
                k = self.ends(y, False, d + 1)
                n = next((a for a in range(len(k), 0, -1) if self.ck.room(self, y, a, j)), 0)
                better(k[:n])
        for y, cut in self.same(x, end):
            k = self.ends(y, end, d + 1)
            n = self.least(x, d + 1)
            if not n and cut is not None and k and not (k[-1 if end else 0] & cut):
                n = 1       # the rest begins (ends) with another character
            if n and k:
                better(k[-n:] if end else k[:n])
        return best

    def least(self, x, d=0):
        """How many bytes x has at least."""
        x = self.canon(x)
        s = const_text(x)
        if s is not None:
            return len(s)
        n = max([len(k) for e in (False, True) for k in self.tests.get((x, e), ())] or [0])
        if n == 0 and self.pr.is_nonempty(x):
            n = 1
        for t, val in self.facts.items():
            if t.op != "bin" or not isinstance(val, bool):
                continue
            op, a, b = t.a
            for p, q, ge, gt in ((a, b, ("Ge", True, "Lt", False), ("Gt", True, "Le", False)), (b, a, ("Le", True, "Gt", False), ("Lt", True, "Ge", False))):
                y = length_of(p)
                if y is None or q.op != "const" or not isinstance(q.a[1], int) or self.canon(y) is not x:
                    continue
                if (op, val) in (ge[:2], ge[2:]):
                    n = max(n, q.a[1])
                if (op, val) in (gt[:2], gt[2:]):
                    n = max(n, q.a[1] + 1)
                if (op, val) in (("Eq", True), ("Ne", False)):
                    n = max(n, q.a[1])
        return n

    def same(self, x, end):
        """(y, characters cut off y next to x, or None): x is the rest of y at
        that end, if it is not empty."""
        path, t = [], x
        while t.op == "f":
            path.insert(0, (t.a[1], t.a[2]))
            t = t.a[0]
        if t.op != "call" or not t.a[1]:
            return
        n = last(t.a[0])
        args = t.a[1]
        if not path:
            if n in (END if end else START):
                yield args[0], None
                return
            if n == "index" and len(args) == 2 and args[1].op == "agg":
                f = dict(zip(args[1].a[2], args[1].a[3]))
                if end and "end" not in f:
                    yield args[0], None
                if not end and ("start" not in f or f["start"].op == "const" and f["start"].a[1] == 0):
                    yield args[0], None
                return
        if path == [("Some", "0")] and n in ("strip_suffix", "strip_prefix") and end is (n == "strip_prefix"):
            k = self.pattern(args[1])
            yield args[0], k[-1 if end else 0] if k else None
            return
        if path == [("Some", "0"), (None, "1" if end else "0")] and n in ("split_once", "rsplit_once"):
            k = self.pattern(args[1])
            yield args[0], k[-1 if end else 0] if k else None
            return
        if path == [(None, "1" if end else "0")] and n == "split_at":
            yield args[0], None
            return
        fn = self.ck.p.fns.get(t.a[0])
        if fn is not None:
            for y, cut in self.ck.ends_of(fn, tuple(path), end):
                z = substitute(y, args, self.I)
                if z is None:
                    continue
                k = None
                if cut is not None:
                    c = substitute(cut, args, self.I)
                    k = self.pattern(c) if c is not None else None
                yield z, k[-1 if end else 0] if k else None

    def filters(self, x):
        """What the filters of an iterator tell about its items."""
        if not (x.op == "f" and x.a[1] == "Some" and x.a[2] == "0" and x.a[0].op == "call" and x.a[0].a[1]):
            return
        c = x.a[0]
        n = last(c.a[0])
        if n == "find" and len(c.a[1]) == 2:
            yield self.ck.tells(self, c.a[1][1])
        if n not in ("next", "next_back", "find", "last"):
            return
        it = c.a[1][0]
        for _ in range(8):
            if it.op == "mut" and last(it.a[0]) in ("next", "find"):
                it = it.a[2][0]
            if it.op != "call" or not it.a[1]:
                return
            m = last(it.a[0])
            if m in ("filter", "take_while") and len(it.a[1]) == 2:
                yield self.ck.tells(self, it.a[1][1])
            elif m not in ("into_iter", "iter", "rev", "skip", "take", "peekable", "fuse", "cloned", "copied", "by_ref", "skip_while", "inspect"):
                return
            it = it.a[1][0]


class Check:
    def __init__(self, p, rep):
        self.p, self.rep = p, rep
        self.base = Base(p, rep)
        self.chars = Chars(self.base)
        self.param = {}      # function -> [(text, positions)] over its parameters
        self.pats = Patterns(p, rep)
        self.pats.tables()
        self.runs = {}
        cl = Calls(self.pats, self.runs)
        for fn in p.fns.values():
            if runs_patterns(p, fn):
                Interp(p, cl).run(fn)
        self.ends_memo = {}
        self.promised = {}
        self.wholes = {}
        self.tell_memo = {}
        self.sets_memo = {}
        self.sites = {}

    def reads(self, fn):
        """The patterns behind the match that a handler is given."""
        caps = [i for i in range(1, fn.raw["argc"] + 1) if CAP in fn.locals[i].s]
        rows = root = key = None
        if caps and "replace_append" in fn.path.split("::")[-1]:
            key = fn.self_adt
        elif caps and "{closure" in fn.path and fn.path in self.runs:
            key = fn.path
        if key in self.runs:
            rows = [r for _, rs in self.runs[key].values() for r in rs]
            root = T("p", caps[0])
        return Reads(self.p, self.pats, rows, {}, {}, root)

    def tells(self, kn, clo):
        """What a predicate tells of its argument: {at the end: sets}"""
        clo = kn.canon(clo)
        if clo.op != "clo" or clo.a[0] not in self.p.fns:
            return {}
        if clo.a[0] not in self.tell_memo:
            self.tell_memo[clo.a[0]] = {}
            fn = self.p.fns[clo.a[0]]
            self.tell_memo[clo.a[0]] = self.truths(fn, T("p", 2))
        return self.tell_memo[clo.a[0]]

    def truths(self, fn, x):
        """What fn tells of its parameter x when it returns true."""
        ex = self.base.run(fn)
        ks = []
        for st, v in ex:
            if v.op == "const" and v.a[1] is False:
                continue
            s = st.copy()
            I = self.base.runs[fn.path][0]
            if v.op != "const":
                s.facts[v] = True
            kn = Knowledge(self, I, s, None)
            ks.append((kn.ends(x, False), kn.ends(x, True)))
        if not ks:
            return {}
        a = worse(k for k, _ in ks)
        b = tuple(reversed(worse(tuple(reversed(k)) for _, k in ks)))
        return {False: [a] if a else [], True: [b] if b else []}

    def promises(self, fn):
        """Tests of its parameters that hold whenever fn returns Some."""
        if fn.path not in self.promised:
            self.promised[fn.path] = []
            common = None
            for st, v in self.base.run(fn):
                if v.op == "agg" and v.a[1] == "None":
                    continue
                here = set()
                for t, val in st.facts.items():
                    if val is True and t.op == "call" and last(t.a[0]) in ("starts_with", "ends_with") and len(t.a[1]) == 2:
                        here.add((t.a[1][0], t.a[1][1], last(t.a[0]) == "ends_with"))
                common = here if common is None else common & here
            self.promised[fn.path] = sorted(common or (), key=lambda h: (h[0].id, h[1].id, h[2]))
        return self.promised[fn.path]

    def ends_of(self, fn, path, end):
        """Parameters (terms) of fn whose rest the returned value is, at that
        end, and the text that was cut off there."""
        key = (fn.path, path, end)
        if key in self.ends_memo:
            return self.ends_memo[key]
        self.ends_memo[key] = []
        ex = self.base.run(fn)
        if not ex:
            return []
        I = self.base.runs[fn.path][0]
        common = None
        for st, v in ex:
            vs = list(project(I, v, path))
            kn = Knowledge(self, I, st, None)
            for y in vs:
                found = {}
                todo = [(kn.canon(y), None, 0)]
                while todo:
                    z, cut, d = todo.pop()
                    if z.op == "p" and z not in found:
                        found[z] = cut
                    if d < 6:
                        for u, c in self.steps(kn, z, end):
                            todo.append((kn.canon(u), c if z is kn.canon(y) else None, d + 1))
                common = found if common is None else {z: (c if found.get(z) is c else None) for z, c in common.items() if z in found}
        self.ends_memo[key] = list((common or {}).items())
        return self.ends_memo[key]

    def whole(self, fn, path):
        """What fn returns at path, if that is the same on all ways."""
        key = (fn.path, path)
        if key not in self.wholes:
            self.wholes[key] = None
            vs = {}
            for st, v in self.base.run(fn):
                I = self.base.runs[fn.path][0]
                kn = Knowledge(self, I, st, None)
                for y in project(I, v, path):
                    vs[kn.canon(y)] = 1
            if len(vs) == 1:
                self.wholes[key] = list(vs)[0]
        return self.wholes[key]

    def steps(self, kn, z, end):
        """Like Knowledge.same, with terms for what was cut off."""
        path, t = [], z
        while t.op == "f":
            path.insert(0, (t.a[1], t.a[2]))
            t = t.a[0]
        if t.op != "call" or not t.a[1]:
            return
        n, args = last(t.a[0]), t.a[1]
        pos = self.positions(kn, t, tuple(path))
        if pos is not None:
            s, a, b = pos
            if end and b is None:
                # what is cut off is a text that s is known to begin with
                cut = None
                for e in ([] if a is None else a.a[1] if a.op == "call" and last(a.a[0]) == "min" else [a]):
                    y = length_of(e)
                    if y is None:
                        continue
                    for f, val in kn.facts.items():
                        if val is True and f.op == "call" and last(f.a[0]) == "starts_with" and kn.canon(f.a[1][0]) is kn.canon(s) and f.a[1][1] is y:
                            cut = y
                yield s, cut
            if not end and a is None:
                yield s, None
            return
        for y, k in kn.same(z, end):
            yield y, None

    def positions(self, kn, t, path):
        """(text, first position or None, last position or None) of a part."""
        n, args = last(t.a[0]), t.a[1]
        if n == "index" and len(args) == 2 and args[1].op == "agg" and not path:
            f = dict(zip(args[1].a[2], args[1].a[3]))
            a, b = f.get("start"), f.get("end")
            return args[0], None if a is not None and a.op == "const" and a.a[1] == 0 else a, b
        fn = self.p.fns.get(t.a[0])
        if fn is None or fn.self_adt != self.base.span:
            return None
        u = self.whole(fn, path)
        u = substitute(u, args, kn.I) if u is not None else None
        if u is None:
            return None
        u = kn.canon(u)
        if u.op == "p" or any(u is kn.canon(a) for a in args):
            cut = u.op == "call" and last(u.a[0]) == "index" and self.positions(kn, u, ())
            return cut or (u, None, None)
        p2 = []
        while u.op == "f":
            p2.insert(0, (u.a[1], u.a[2]))
            u = u.a[0]
        if u.op != "call" or u is t:
            return None
        return self.positions(kn, u, tuple(p2))

    # -- patterns

    def matched(self, kn, x, end, given):
        """The characters that every match has at its beginning."""
        if kn.reads is None or end:
            return None
        caps = j = None
        y = x
        if y.op == "call" and y.a[0] == "captures.index":
            caps, j = y.a[1]
        elif y.op == "f" and y.a[1] == "Some" and y.a[2] == "0" and y.a[0].op == "call" and y.a[0].a[0] == "captures.get":
            caps, j = y.a[0].a[1]
        if caps is None or j.op != "const":
            return None
        rows = kn.reads.patterns(kn.I, kn.st, caps, None)
        if not rows:
            return None
        rows = list({id(r): r for r, v in kn.reads.agree(kn.I, kn.st, caps, rows)}.values()) or rows
        ks = []
        for r in rows:
            node = r.pat.node if j.a[1] == 0 else group_node(r.pat.node, group(r, j.a[1]))
            if node is None:
                return None
            ks.append(self.first(node, given))
        return worse(ks) if all(ks) else None

    def first(self, node, given=(), n=4):
        """Sets of the first characters of every text that node matches and
        that begins as given."""
        key = (id(node), given, n)
        if key not in self.sets_memo:
            a = Nfa()
            p0 = a.state()
            pend = a.build(node, p0)
            cur = a.close([p0])
            out = []
            for i in range(n):
                if i >= len(given) and pend in cur:
                    break
                step, nxt = set(), set()
                for s in cur:
                    for m, b in a.step[s]:
                        m2 = m & given[i] if i < len(given) else m
                        if m2:
                            step |= m2
                            nxt.add(b)
                if not nxt:
                    break
                out.append(frozenset(step))
                cur = a.close(nxt)
            self.sets_memo[key] = (node, tuple(out))
        return self.sets_memo[key][1]

    def leading(self, kn, caps):
        """Tested groups that stand at the beginning of every match."""
        if kn.reads is None:
            return
        rows = kn.reads.patterns(kn.I, kn.st, caps, None)
        for key in list(kn.tests) if rows else ():
            y = key[0]
            if key[0] == "char" or key[1]:
                continue
            if y.op == "call" and y.a[0] == "captures.index" and y.a[1][0] is caps:
                j = y.a[1][1]
            elif y.op == "f" and y.a[0].op == "call" and y.a[0].a[0] == "captures.get" and y.a[0].a[1][0] is caps:
                j = y.a[0].a[1][1]
            else:
                continue
            if j.op == "const" and j.a[1] != 0 and all(rest_after(r.pat.node, group(r, j.a[1])) is not None for r in rows):
                yield y

    def after_group(self, kn, x, y):
        """x is a whole match and y a group at its beginning: the characters
        that follow it."""
        if kn.reads is None or not (x.op == "call" and x.a[0] == "captures.index" and x.a[1][1].op == "const" and x.a[1][1].a[1] == 0):
            return None
        caps = x.a[1][0]
        if y.op == "call" and y.a[0] == "captures.index" and y.a[1][0] is caps:
            j = y.a[1][1]
        elif y.op == "f" and y.a[0].op == "call" and y.a[0].a[0] == "captures.get" and y.a[0].a[1][0] is caps:
            j = y.a[0].a[1][1]
        else:
            return None
        if j.op != "const":
            return None
        rows = kn.reads.patterns(kn.I, kn.st, caps, None)
        if not rows:
            return None
        ks = []
        for r in rows:
            rest = rest_after(r.pat.node, group(r, j.a[1]))
            if rest is None:
                return None
            ks.append(self.first(rest))
        return worse(ks)

    # -- cuts

    def cut_of(self, I, st, c):
        """(text, kind, [(start, end)]) of a call that cuts a text."""
        n = last(c.path)
        ty = c.path
        if n in ("index", "index_mut") and len(c.args) == 2 and CAP not in ty:
            t0 = c.types[0].s if c.types and c.types[0] is not None else ""
            if not any(w in ty + t0 for w in ("str", "String", "[u8]")) or "Vec" in ty or "Vec<" in t0:
                return None
            bytes_ = "[u8]" in t0
            r = I.deep(st, c.args[1])
            return (c.args[0], bytes_, r)
        if n in ("split_at", "truncate", "split_off", "split_at_mut") and len(c.args) == 2:
            t0 = c.types[0].s if c.types and c.types[0] is not None else ""
            if "Vec<" in t0 or "Vec" in ty:
                return None
            if not ("str" in ty or "String" in ty or "string" in ty or "[T]" in ty or "slice" in ty):
                return None
            e = I.deep(st, c.args[1])
            return (c.args[0], "[u8]" in t0, T("agg", "Range", "Range", ("end",), (e,)))
        if n in ("drain", "replace_range") and len(c.args) >= 2 and ("String" in ty or "string" in ty):
            return (c.args[0], False, I.deep(st, c.args[1]))
        return None

    def lin(self, kn, e, d=0, k=0):
        """[(place, shift)]"""
        if d > 12:
            return [(("unknown", e), k)]
        if e.op == "f" and e.a[0].op == "bin" and e.a[2] == "0":
            e = e.a[0]
        if e.op == "const" and isinstance(e.a[1], int):
            return [(("begin",), e.a[1] + k)]
        if e.op == "cast":
            return self.lin(kn, e.a[0], d + 1, k)
        if e.op == "bin" and e.a[0][:3] in ("Add", "Sub"):
            a, b = e.a[1:]
            for x, y in ((a, b), (b, a)):
                z = self.number(kn, y)
                if z is not None and (y is b or e.a[0][:3] == "Add"):
                    return self.lin(kn, x, d + 1, k + (z if e.a[0][:3] == "Add" else -z))
            return [(("unknown", e), k)]
        if e.op == "call" and last(e.a[0]) in ("saturating_sub", "wrapping_sub", "saturating_add", "wrapping_add") and len(e.a[1]) == 2:
            z = self.number(kn, e.a[1][1])
            if z is not None:
                return self.lin(kn, e.a[1][0], d + 1, k + (-z if last(e.a[0]).endswith("sub") else z))
        if e.op == "call" and last(e.a[0]) in ("min", "max") and len(e.a[1]) == 2:
            return [x for y in e.a[1] for x in self.lin(kn, y, d + 1, k)]
        y = length_of(e)
        if y is not None:
            y = kn.canon(y)
            s = const_text(y)
            if s is not None:
                return [(("begin",), len(s if isinstance(s, bytes) else s.encode()) + k)]
            return [(("length", y), k)]
        if e.op == "phi":
            ins = sorted(kn.I.phis.get(e, ()), key=lambda u: u.id)
            if all(x.op == "const" or length_of(x) is not None or x.op in ("bin", "call") for x in ins) and ins:
                return [z for x in ins for z in self.lin(kn, x, d + 3, k)]
            return [(("unknown", e), k)]
        if e.op == "f" and e.a[1] == "Some" and e.a[0].op == "call" and last(e.a[0].a[0]) in SEARCH and len(e.a[0].a[1]) == 2:
            return [(("found", kn.canon(e.a[0].a[1][0]), e.a[0].a[1][1]), k)]
        if e.op == "f" and e.a[2] == "0" and e.a[0].op == "f" and e.a[0].a[1] == "Some" and e.a[0].a[0].op == "call" and last(e.a[0].a[0].a[0]) in ("next", "next_back", "find", "last"):
            return [(("item", e.a[0]), k)]
        return [(("unknown", e), k)]

    def number(self, kn, e):
        if e.op == "const" and isinstance(e.a[1], int) and not isinstance(e.a[1], bool):
            return e.a[1]
        if e.op == "call" and last(e.a[0]) == "len_utf8" and e.a[1][0].op == "const" and isinstance(e.a[1][0].a[1], str):
            return len(e.a[1][0].a[1].encode())
        y = length_of(e)
        if y is not None:
            s = const_text(kn.canon(y))
            if s is not None:
                return len(s if isinstance(s, bytes) else s.encode())
        return None

    def proven(self, kn, s, place, k, bytes_):
        """True, False, or None (not decided)."""
        w = place[0]
        if k == 0:
            return None
        if w == "begin":
            if k < 0:
                return False
            return (kn.least(s) >= k) if bytes_ else ascii_run(kn.ends(s, False)) >= k or self.absent(kn, s)
        if w == "length":
            y = place[1]
            if y is s:
                if k > 0:
                    return False
                if bytes_:
                    return kn.least(s) >= -k
                return ascii_run(tuple(reversed(kn.ends(s, True)))) >= -k
            if k > 0:
                g = self.after_group(kn, s, y)
                if g is not None:
                    return ascii_run(g) >= k
            return None
        if w == "found":
            y, pat = place[1:]
            n = self.shift(kn, s, y)
            if n is None:
                return None
            m = k - n
            if m == 0:
                return True
            ks = kn.pattern(pat)
            if m < 0 or not ks:
                return None
            return ascii_run(ks) >= m
        if w == "item":
            c = T("f", place[1], None, "1")
            ks = kn.tests.get(("char", c), ())
            if k < 0 or not self.walks(kn, place[1]):
                return None
            return k == 1 and any(x[0] <= ASCII for x in ks) or (None if c in kn.linked and not ks else False)
        return None

    def walks(self, kn, item):
        it = item.a[0].a[1][0] if item.a[0].a[1] else None
        for t in kn.I.deepterms(it) if it is not None else ():
            if t.op == "call" and last(t.a[0]) == "char_indices":
                return True
        return False

    def absent(self, kn, s):
        """It would be empty here, which it cannot be."""
        for t, val in kn.facts.items():
            if t.op == "call" and last(t.a[0]) == "next" and val == frozenset(["None"]) and t.a[1][0].op == "call" \
                    and last(t.a[1][0].a[0]) == "chars" and kn.canon(t.a[1][0].a[1][0]) is s and self.matched(kn, s, False, ()):
                return True
        return False

    def shift(self, kn, s, y):
        """y is what s has after n bytes."""
        if s is y:
            return 0
        path, t = [], y
        while t.op == "f":
            path.insert(0, (t.a[1], t.a[2]))
            t = t.a[0]
        if t.op != "call" or not t.a[1]:
            return None
        pos = self.positions(kn, t, tuple(path))
        if pos is None or pos[2] is not None or kn.canon(pos[0]) is not s:
            return None
        if pos[1] is None:
            return 0
        z = [self.number(kn, x) for x in ([pos[1]] if pos[1].op != "call" else pos[1].a[1])]
        z = [x for x in z if x is not None]
        return z[0] if z else None

    def open(self, kn, s):
        """A text of which nothing is known because a loop replaces it, or
        because it is assembled."""
        if any(self.strange(kn, t, s) for t in kn.facts):
            return True
        if any(kn.tests.get((s, e)) for e in (False, True)):
            return False
        if s.op in ("phi", "fmt", "mut", "unk"):
            return True
        return s.op == "call" and (last(s.a[0]) in ("replace", "replacen", "repeat", "join", "concat", "to_lowercase", "to_uppercase", "into_owned", "replace_all"))

    def vague(self, kn, s, k):
        """s may be the rest of a text that ends as required: it is not known
        what was cut off before it."""
        x = s
        for _ in range(8):
            here = list(kn.same(x, True))
            if not here:
                return x.op == "f" and x.a[2] == "after"
            y, cut = here[0]
            if cut is None and not kn.least(x) and ascii_run(tuple(reversed(kn.ends(y, True)))) >= k:
                return True
            x = kn.canon(y)
        return False

    def strange(self, kn, t, s):
        """A test of s in a form that is not understood."""
        if s not in subterms(t):
            return False
        if t.op == "call":
            return not (last(t.a[0]) in UNDERSTOOD or t.a[0] in self.p.fns
                        or last(t.a[0]) in ("eq", "ne") and any(const_text(kn.canon(a)) is not None for a in t.a[1])
                        or last(t.a[0]).startswith("captures.") or t.a[0].startswith("captures."))
        if t.op == "bin":
            return not any(length_of(a) is not None or first_char(a) for b in t.a[1:] for a in subterms(b))
        if t.op == "f":
            return False
        return t.op not in ("p", "phi")

    def judge(self, kn, s, rng, bytes_):
        """(verdict, text): True, False, or None for a cut without shift or
        that is not decided."""
        if rng.op != "agg":
            return None, "positions from elsewhere"
        f = dict(zip(rng.a[2], rng.a[3]))
        if rng.a[0].endswith("RangeInclusive") or rng.a[0].endswith("RangeToInclusive"):
            return None, "inclusive range"
        res, why = None, "no shift"
        ends = []
        for side in ("start", "end"):
            if side not in f:
                continue
            for place, k in self.lin(kn, f[side]):
                ends.append((side, place, k))
                v = self.proven(kn, s, place, k, bytes_)
                if v is None and k != 0 and place[0] != "begin":
                    why = "a place that is not known (%s)" % show(f[side])[:80] if res is None else why
                if v is False and (f[side].op == "phi" or self.open(kn, s) or place[0] == "length" and k < 0 and self.vague(kn, s, -k)):
                    v, why = None, "a text of which nothing is known or that is tested in another way"
                if v is False:
                    return False, "%d byte%s %s %s, which %s not known to be %s there" % (
                        abs(k), "" if abs(k) == 1 else "s", "after" if k > 0 else "before",
                        {"begin": "the beginning", "length": "the end"}.get(place[0], "a place found in the text"),
                        "is" if abs(k) == 1 else "are", "a character of one byte" if abs(k) == 1 else "characters of one byte")
                if v is True:
                    res, why = True, "known"
        a = max([k for side, place, k in ends if side == "start" and place[0] == "begin"] or [0])
        b = max([-k for side, place, k in ends if side == "end" and place[0] == "length" and place[1] is s] or [0])
        if a > 0 and b > 0 and not self.room(kn, s, a, b):
            if self.open(kn, s):
                return None, "a text of which nothing is known"
            return False, "%d bytes at the beginning and %d at the end, which can overlap" % (a, b)
        return res, why

    def room(self, kn, s, a, b):
        if kn.least(s) >= a + b:
            return True
        p, q = kn.ends(s, False), kn.ends(s, True)
        if len(p) < a or len(q) < b:
            return False
        for n in range(1, min(len(p), len(q)) + 1):
            if all(x & y for x, y in zip(p[-n:], q[:n])):
                return False
        return True

    def visit(self, I, st, c, reads):
        fr = c.fr
        cuts = []
        r = self.cut_of(I, st, c)
        if r is not None:
            cuts.append(r)
        fn = self.p.fns.get(c.path)
        if fn is not None:
            for x, rng in self.param.get(fn.path, ()):
                args = tuple(I.deep(st, a) for a in c.args)
                s, g = substitute(x, args, I), substitute(rng, args, I)
                if s is not None and g is not None:
                    cuts.append((s, False, g))
        if not cuts:
            return
        kn = Knowledge(self, I, st, reads)
        for x, bytes_, rng in cuts:
            s = kn.canon(I.deep(st, x))
            if s.op == "p" and fr.depth == 0 and fr.fn.self_adt == self.base.span and rng.op in ("agg", "p"):
                es = [rng] if rng.op == "p" else list(rng.a[3])
                if any(e.op == "p" or e.op == "call" and last(e.a[0]) == "min" and any(y.op == "p" for y in e.a[1]) for e in es):
                    self.param.setdefault(fr.fn.path, {})[(s, rng)] = 1
                    continue
            v, why = self.judge(kn, s, rng, bytes_)
            self.sites.setdefault((fr.fn.path, c.bi), [c.span, {}])[1].setdefault(v, (s, why))


def first_char(t):
    if t.op == "f" and t.a[1] is None and t.a[2] == "1":
        t = t.a[0]
    return t.op == "f" and t.a[1] == "Some" and t.a[0].op == "call" and last(t.a[0].a[0]) in ("next", "next_back", "last", "first") \
        and bool(t.a[0].a[1]) and t.a[0].a[1][0].op == "call" and last(t.a[0].a[1][0].a[0]) in ("chars", "char_indices", "bytes")


class P(Policy):
    def __init__(self, ck, reads, only=None):
        self.ck, self.reads, self.only = ck, reads, only
        self.max_states = reads.max_states if reads is not None else 64

    def enter(self, I, ctx, fn, depth):
        if self.reads is not None and self.reads.rows and any(t is not None and CAP in t.s for t in ctx.types):
            return True
        return super().enter(I, ctx, fn, depth)

    def into(self, fn):
        return fn.self_adt is not None and fn.self_adt.endswith("::MatchedItem") and not fn.name == "default"

    def flagkey(self, I, st, fr):
        return frozenset((t, v) for t, v in st.facts.items() if t.op == "bin" and t.a[0] in ("Eq", "Ne") and any(first_char(x) for x in t.a[1:]) and any(
            x.op == "const" for x in t.a[1:]) or first_char(t) and isinstance(v, tuple) and v[0] == "int" or t.op == "call" and (
            t.a[0] == "captures.get" and isinstance(v, frozenset)
            or last(t.a[0]) in ("starts_with", "ends_with") and v is True and t.a[1][0].op == "call" and t.a[1][0].a[0] == "captures.index"
            or last(t.a[0]) == "next" and v == frozenset(["None"]) and any(x.op == "call" and x.a[0] == "captures.index" for x in subterms(t))))

    def call(self, I, st, c):
        if is_get(c) and c.args[1].op == "const":
            if c.args[1].a[1] == 0:
                return None
            return [(st, T("call", "captures.get", (c.args[0], c.args[1]), ()))]
        if is_index(c):
            return [(st, T("call", "captures.index", (c.args[0], c.args[1]), ()))]
        self.ck.visit(I, st, c, self.reads)
        return None


def group_node(n, j):
    if n.kind == "grp":
        return n.a[1] if n.a[0] == j else group_node(n.a[1], j)
    if n.kind in ("cat", "alt"):
        for x in n.a[0]:
            r = group_node(x, j)
            if r is not None:
                return r
    if n.kind == "rep":
        return group_node(n.a[0], j)
    return None


def rest_after(n, j):
    """What a pattern that begins with group j has after it."""
    from engine.rx import Node
    if n.kind == "grp" and n.a[0] is None:
        return rest_after(n.a[1], j)
    if n.kind != "cat":
        return None
    for i, x in enumerate(n.a[0]):
        if x.kind in ("look", "empty"):
            continue
        if x.kind == "grp" and x.a[0] == j:
            return Node("cat", n.a[0][i + 1:])
        return None
    return None


def check(p, rep):
    ck = Check(p, rep)
    spans = [f for f in p.fns.values() if f.self_adt == ck.base.span and f.kind != "const" and "{closure" not in f.path]
    for _ in range(4):
        before = {k: dict(v) for k, v in ck.param.items()}
        ck.sites = {}
        for fn in spans:
            Interp(p, P(ck, None)).run(fn)
        if {k: dict(v) for k, v in ck.param.items()} == before:
            break
    ck.sites = {}
    called = {c for f in p.fns.values() for _, _, k in f.calls() for c in [k.path] if c and c != f.path}
    roots = [f for f in p.fns.values() if f.kind != "const" and "{closure" not in f.path
             and (f.path in known_fns() or f.path not in called)]      # the others are judged where they are called
    for fn in roots:
        Interp(p, P(ck, ck.reads(fn))).run(fn)
    for fn in p.fns.values():
        if "{closure" in fn.path and not any(k[0] == fn.path for k in ck.sites):
            Interp(p, P(ck, ck.reads(fn))).run(fn)
    n = open_ = 0
    for (f, bi), (span, vs) in sorted(ck.sites.items()):
        if False in vs:
            s, why = vs[False]
            rep.ob("%s/%d" % (f, bi), "%s: %s" % (loc(span), why))
            rep.bad("%s/%s" % (f, why.split(",")[0]), span, "the text %s is cut %s" % (show(s)[:100], why))
        elif True in vs:
            n += 1
            rep.ob("%s/%d" % (f, bi), "%s: %s" % (loc(span), vs[True][1]))
        elif vs[None][1] != "no shift":
            open_ += 1
            rep.notes.append("not decided: %s in %s (%s)" % (loc(span), f, vs[None][1]))
    rep.count("cuts found", len(ck.sites))
    rep.count("cuts by a fixed number of bytes, decided", n)
    rep.count("cuts by computed positions, not decided", open_)
    rep.floor("cuts by a fixed number of bytes", n, 1)
