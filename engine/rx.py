"""Reads patterns in the syntax of the regex crate, far enough to know which
capture groups can take part in a match together, and which characters a match
can start with."""


class RxError(Exception):
    pass


class Node:
    """kind: empty, look, set (one character), cat, alt, rep (min, max), grp"""
    __slots__ = ("kind", "a")

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def __repr__(self):
        return "%s%r" % (self.kind, self.a)


class Parser:
    def __init__(self, text):
        self.s = text
        self.i = 0
        self.groups = 0
        self.names = {}
        self.flags = {"x": False, "i": False, "s": False, "m": False}

    def peek(self, n=1):
        return self.s[self.i:self.i + n]

    def skip(self):
        if not self.flags["x"]:
            return
        while self.i < len(self.s):
            c = self.s[self.i]
            if c.isspace():
                self.i += 1
            elif c == "#":
                while self.i < len(self.s) and self.s[self.i] != "\n":
                    self.i += 1
            else:
                return

    def parse(self):
        n = self.alt()
        if self.i != len(self.s):
            raise RxError("unbalanced ) at %d in %r" % (self.i, self.s))
        return n

    def alt(self):
        saved = dict(self.flags)
        out = [self.cat()]
        while self.peek() == "|":
            self.i += 1
            out.append(self.cat())
        self.flags = saved
        return out[0] if len(out) == 1 else Node("alt", out)

    def cat(self):
        out = []
        while True:
            self.skip()
            c = self.peek()
            if c in ("", "|", ")"):
                return Node("cat", out)
            a = self.atom()
            if a is None:
                continue
            out.append(self.repeats(a))

    def repeats(self, a):
        while True:
            self.skip()
            c = self.peek()
            if c in ("*", "+", "?") and c:
                self.i += 1
                lo, hi = {"*": (0, None), "+": (1, None), "?": (0, 1)}[c]
            elif c == "{":
                j = self.s.find("}", self.i)
                if j < 0:
                    raise RxError("open repetition in %r" % self.s)
                b = self.s[self.i + 1:j].replace(" ", "")
                lo, _, hi = b.partition(",")
                try:
                    if "," not in b:
                        lo = hi = int(lo)
                    else:
                        lo, hi = int(lo) if lo else 0, int(hi) if hi else None
                except ValueError:
                    raise RxError("repetition %r in %r" % (b, self.s))
                self.i = j + 1
            else:
                return a
            self.skip()
            if self.peek() == "?":
                self.i += 1
            a = Node("rep", a, lo, hi)

    def atom(self):
        c = self.peek()
        if c == "(":
            return self.group()
        if c == "[":
            return Node("set", self.klass())
        self.i += 1
        if c == "\\":
            return self.escape()
        if c in "^$":
            return Node("look")
        if c == ".":
            return Node("set", frozenset("any"))
        return Node("set", ("lit", c))

    def group(self):
        self.i += 1
        if self.peek() != "?":
            self.groups += 1
            g = self.groups
            n = self.alt()
            self.close()
            return Node("grp", g, n)
        self.i += 1
        for intro in ("P<", "<"):
            if self.s.startswith(intro, self.i):
                j = self.s.find(">", self.i)
                self.groups += 1
                g = self.groups
                self.names[self.s[self.i + len(intro):j]] = g
                self.i = j + 1
                n = self.alt()
                self.close()
                return Node("grp", g, n)
        on = True
        new = dict(self.flags)
        while True:
            c = self.peek()
            self.i += 1
            if c == "-":
                on = False
            elif c == ")":
                self.flags.update(new)
                return None
            elif c == ":":
                saved = self.flags
                self.flags = new
                n = self.alt()
                self.flags = saved
                self.close()
                return Node("cat", [n])
            elif c and c in "imsUuxR":
                new[c] = on
            else:
                raise RxError("group flags in %r" % self.s)

    def close(self):
        if self.peek() != ")":
            raise RxError("missing ) in %r" % self.s)
        self.i += 1

    def klass(self):
        j = self.i
        self.i += 1
        if self.peek() == "^":
            self.i += 1
        if self.peek() == "]":
            self.i += 1
        while True:
            c = self.peek()
            if c == "":
                raise RxError("open class in %r" % self.s)
            if c == "\\":
                self.i += 2
                if self.s[self.i - 1] in "pPxuU" and self.peek() == "{":
                    self.i = self.s.index("}", self.i) + 1
            elif c == "[":
                if self.peek(2) == "[:":
                    self.i = self.s.index(":]", self.i) + 2
                else:
                    self.klass()
            elif c == "]":
                self.i += 1
                return ("class", self.s[j:self.i])
            else:
                self.i += 1

    def escape(self):
        c = self.peek()
        self.i += 1
        if c in "bB<>Az" and c:
            if c == "b" and self.peek() == "{" and self.s[self.i:].split("}")[0][1:] in ("start", "end", "start-half", "end-half"):
                self.i = self.s.index("}", self.i) + 1
            return Node("look")
        if c in "pPxuU" and c:
            if self.peek() == "{":
                j = self.s.index("}", self.i) + 1
            else:
                j = self.i + {"p": 1, "P": 1, "x": 2, "u": 4, "U": 8}[c]
            t = self.s[self.i - 2:j]
            self.i = j
            return Node("set", ("class", t))
        if c in "dDsSwW" and c:
            return Node("set", ("class", "\\" + c))
        if c == "":
            raise RxError("trailing backslash in %r" % self.s)
        return Node("set", ("lit", {"n": "\n", "t": "\t", "r": "\r", "f": "\f", "v": "\v", "a": "\a"}.get(c, c)))


class Pattern:
    def __init__(self, text):
        p = Parser(text)
        self.text = text
        self.node = p.parse()
        self.count = p.groups + 1
        self.names = p.names
        self.vectors = frozenset(v | {0} for v in vectors(self.node))


def unions(vs):
    """All unions of non-empty sub-collections."""
    out = set(vs)
    todo = list(out)
    while todo:
        a = todo.pop()
        for b in vs:
            c = a | b
            if c not in out:
                out.add(c)
                todo.append(c)
                if len(out) > 4096:
                    raise RxError("too many combinations of groups")
    return out


def vectors(n):
    """Sets of groups that take part in a match together. Groups of different
    alternatives of a repetition add up."""
    E = frozenset()
    if n.kind in ("empty", "look", "set"):
        return {E}
    if n.kind == "grp":
        return {v | {n.a[0]} for v in vectors(n.a[1])}
    if n.kind == "alt":
        out = set()
        for x in n.a[0]:
            out |= vectors(x)
        return out
    if n.kind == "rep":
        x, lo, hi = n.a
        vs = vectors(x)
        if hi == 0:
            return {E}
        out = set(vs) if hi == 1 else unions(vs)
        if lo == 0:
            out.add(E)
        return out
    out = {E}
    for x in n.a[0]:
        vs = vectors(x)
        out = {a | b for a in out for b in vs}
        if len(out) > 4096:
            raise RxError("too many combinations of groups")
    return out


# ---------------------------------------------------------------------------
# Inclusion: does every match of one pattern contain a match of another?
# Characters are represented by samples: all of ASCII, and some others.

SAMPLES = [chr(i) for i in range(128)] + list("\u00a0\u00b2\u00e9\u0301\u0416\u2013\u2028\u4e2d\uff11\u0096\u0097")
_ALL = frozenset(range(len(SAMPLES)))


def _where(f):
    return frozenset(i for i, c in enumerate(SAMPLES) if f(c))


def _cat(c, k):
    return unicodedata.category(c).startswith(k)


def _word(c):
    return c.isalnum() or c == "_" or c == "\u0301"


_PERL = {"d": _where(lambda c: c.isdecimal()), "s": _where(lambda c: c.isspace() and c not in "\x1c\x1d\x1e\x1f"), "w": _where(_word)}
_PROPS = {
    "alpha": str.isalpha, "alphabetic": str.isalpha, "l": str.isalpha, "letter": str.isalpha,
    "digit": str.isdecimal, "nd": str.isdecimal, "n": str.isnumeric, "number": str.isnumeric, "numeric": str.isnumeric, "word": lambda c: _word(c),
    "white_space": str.isspace, "whitespace": str.isspace, "uppercase": str.isupper, "lowercase": str.islower,
    "p": lambda c: _cat(c, "P"), "punctuation": lambda c: _cat(c, "P"), "s": lambda c: _cat(c, "S"), "symbol": lambda c: _cat(c, "S"),
    "z": lambda c: _cat(c, "Z"), "m": lambda c: _cat(c, "M"), "mark": lambda c: _cat(c, "M"), "cc": lambda c: _cat(c, "Cc"), "c": lambda c: _cat(c, "C"),
    "alnum": lambda c: c.isascii() and c.isalnum(),
    "upper": str.isupper, "lu": str.isupper, "lower": str.islower, "ll": str.islower,
}
_POSIX = {
    "alpha": lambda c: c.isascii() and c.isalpha(), "digit": lambda c: c.isascii() and c.isdigit(),
    "alnum": lambda c: c.isascii() and c.isalnum(), "upper": lambda c: c.isascii() and c.isupper(),
    "lower": lambda c: c.isascii() and c.islower(), "space": lambda c: c in " \t\n\r\v\f", "word": lambda c: c.isascii() and _word(c),
    "punct": lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != " ",
    "xdigit": lambda c: c in "0123456789abcdefABCDEF", "blank": lambda c: c in " \t", "cntrl": lambda c: ord(c) < 32 or ord(c) == 127,
}


def members(a):
    """Samples that a one-character node matches."""
    if isinstance(a, frozenset):
        return _ALL
    kind, t = a
    if kind == "lit":
        return _where(lambda c: c == t)
    if t.startswith("\\"):
        return _escape(t, 1)[0]
    s, i = _class(t, 0)
    if i != len(t):
        raise RxError("class %r" % t)
    return s


def _escape(t, i):
    c = t[i]
    if c in "pP":
        if t[i + 1] == "{":
            j = t.index("}", i)
            n, e = t[i + 2:j], j + 1
        else:
            n, e = t[i + 1], i + 2
        f = _PROPS.get(n.lower())
        if f is None:
            raise RxError("property %r" % n)
        s = _where(f)
        return (s if c == "p" else _ALL - s), e
    if c in "dswDSW":
        s = _PERL[c.lower()]
        return (s if c.islower() else _ALL - s), i + 1
    ch, e = _char(t, i)
    return _where(lambda x: x == ch), e


def _char(t, i):
    """The character of an escape (t[i] follows the backslash)."""
    c = t[i]
    if c in "xuU":
        if t[i + 1] == "{":
            j = t.index("}", i)
            return chr(int(t[i + 2:j], 16)), j + 1
        n = {"x": 2, "u": 4, "U": 8}[c]
        return chr(int(t[i + 1:i + 1 + n], 16)), i + 1 + n
    return {"n": "\n", "t": "\t", "r": "\r", "f": "\f", "v": "\v", "a": "\a"}.get(c, c), i + 1


def _class(t, i):
    i += 1
    neg = t[i] == "^"
    if neg:
        i += 1
    out = frozenset()
    ops = []
    first = True
    while True:
        c = t[i]
        if c == "]" and not first:
            i += 1
            break
        first = False
        if t.startswith("[:", i):
            j = t.index(":]", i)
            n = t[i + 2:j]
            inv = n.startswith("^")
            f = _POSIX.get(n.lstrip("^"))
            if f is None:
                raise RxError("class %r" % n)
            s = _where(f)
            out |= _ALL - s if inv else s
            i = j + 2
            continue
        if c == "[":
            s, i = _class(t, i)
            out |= s
            continue
        if t[i:i + 2] in ("&&", "--", "~~"):
            ops.append((out, t[i:i + 2]))
            out = frozenset()
            i += 2
            continue
        if c == "\\" and t[i + 1] in "pPdswDSW":
            s, i = _escape(t, i + 1)
            out |= s
            continue
        if c == "\\":
            lo, i = _char(t, i + 1)
        else:
            lo, i = c, i + 1
        if t[i] == "-" and t[i + 1] != "]" and t[i:i + 2] != "--":
            i += 1
            if t[i] == "\\":
                hi, i = _char(t, i + 1)
            else:
                hi, i = t[i], i + 1
            out |= _where(lambda x: lo <= x <= hi)
        else:
            out |= _where(lambda x: x == lo)
    while ops:
        left, op = ops.pop()
        out = left & out if op == "&&" else left - out if op == "--" else left ^ out
    return (_ALL - out if neg else out), i


class Nfa:
    """Thompson construction; edges: None (empty) or a set of samples."""

    def __init__(self):
        self.eps, self.step = [], []

    def state(self):
        self.eps.append([])
        self.step.append([])
        if len(self.eps) > 20000:
            raise RxError("pattern too large")
        return len(self.eps) - 1

    def build(self, n, a, looks=True):
        """Adds paths for `n` from state `a`; returns the end state. Without
        `looks`, a position test never succeeds."""
        if n.kind == "set":
            b = self.state()
            self.step[a].append((members(n.a[0]), b))
            return b
        if n.kind == "look":
            b = self.state()
            if looks:
                self.eps[a].append(b)
            return b
        if n.kind == "grp":
            return self.build(n.a[1], a, looks)
        if n.kind == "cat":
            for x in n.a[0]:
                a = self.build(x, a, looks)
            return a
        if n.kind == "alt":
            b = self.state()
            for x in n.a[0]:
                c = self.state()
                self.eps[a].append(c)
                self.eps[self.build(x, c, looks)].append(b)
            return b
        x, lo, hi = n.a
        for _ in range(lo):
            a = self.build(x, a, looks)
        if hi is None:
            b, c = self.state(), self.state()
            self.eps[a] += [b, c]
            self.eps[self.build(x, b, looks)] += [b, c]
            return c
        end = self.state()
        for _ in range(hi - lo):
            self.eps[a].append(end)
            a = self.build(x, a, looks)
        self.eps[a].append(end)
        return end

    def close(self, states):
        out = set(states)
        todo = list(out)
        while todo:
            for b in self.eps[todo.pop()]:
                if b not in out:
                    out.add(b)
                    todo.append(b)
        return frozenset(out)


def literal(s):
    return Node("cat", [Node("set", ("lit", c)) for c in s])


def avoids(pattern, sniffs):
    """A text that `pattern` matches and in which none of `sniffs` (nodes)
    occurs, or None. Position tests of `pattern` are taken to succeed, those
    of `sniffs` to fail."""
    p = Nfa()
    p0 = p.state()
    pend = p.build(pattern, p0)
    q = Nfa()
    q0 = q.state()
    qend = {q.build(n, q0, looks=False) for n in sniffs}
    start_q = q.close([q0])
    if start_q & qend:
        return None
    dfa = {}

    def qstep(s, c):
        k = (s, c)
        if k not in dfa:
            t = {b for a in s for m, b in q.step[a] if c in m}
            dfa[k] = q.close(t | {q0})
        return dfa[k]

    # The distinctions between samples that matter.
    sets = {m for a in range(len(p.step)) for m, _ in p.step[a]} | {m for a in range(len(q.step)) for m, _ in q.step[a]}
    classes = {}
    for i in range(len(SAMPLES)):
        classes.setdefault(tuple(i in m for m in sets), i)
    reps = sorted(classes.values(), key=lambda i: (not SAMPLES[i].isprintable(), i))
    seen = {}
    todo = []
    for a in p.close([p0]):
        seen[(a, start_q)] = ""
        todo.append((a, start_q))
    k = 0
    while k < len(todo):
        a, s = todo[k]
        k += 1
        w = seen[(a, s)]
        if a == pend:
            return w
        for m, b in p.step[a]:
            for c in reps:
                if c not in m:
                    continue
                s2 = qstep(s, c)
                if s2 & qend:
                    continue
                for b2 in p.close([b]):
                    if (b2, s2) not in seen:
                        seen[(b2, s2)] = w + SAMPLES[c]
                        todo.append((b2, s2))
        if len(todo) > 400000:
            raise RxError("the comparison is too large")
    return None
