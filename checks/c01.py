"""Every place where the crate aborts by its own decision (a panic, `todo!`,
`unreachable!` or failed assertion, and each `unwrap` or `expect`) is
enumerated from the MIR. Each is discharged by showing that no path gets there
with a value that aborts: the body is interpreted (from its callers, where its
own tests do not suffice), with the variants of enums that are never built left
out, and with the smallest number that is ever put into a variant."""

from checks.common import *
from checks.c02 import MAKE
from engine.interp import *
from engine.interp import OPTION
from engine.rx import Pattern, RxError
import engine.interp as EI

TECH = "inventory of abort sites in the MIR x path-sensitive reachability of each, interprocedural where needed"
NOTE = ("Exhaustive over the explicit aborts in the crate's MIR (debug assertions included). Not covered: implicit ones "
        "(slice bounds, arithmetic overflow), running out of memory or stack, panics inside dependencies. Unwrapped "
        "groups of a match are decided by C02. Trusts self_cell's generated code.")

RESULT = "core::result::Result"
UNWRAP = {"core::option::Option::<T>::unwrap": "Some", "core::option::Option::<T>::expect": "Some",
          "core::option::Option::<T>::unwrap_unchecked": "Some",
          "core::result::Result::<T, E>::unwrap": "Ok", "core::result::Result::<T, E>::expect": "Ok",
          "core::result::Result::<T, E>::unwrap_unchecked": "Ok",
          "core::result::Result::<T, E>::unwrap_err": "Err", "core::result::Result::<T, E>::expect_err": "Err"}
ABORT = re.compile(r"^(core|std|alloc)::(panicking|rt|process|intrinsics|hint)::(.*)$")
ABORT_NAMES = {"abort", "exit", "unreachable_unchecked", "begin_panic"}
CAP_GET = re.compile(r"regex::regex::string::Captures.*::(get|name)$")


def is_abort(c):
    if c is None:
        return None
    if c.path in UNWRAP:
        return "unwrap"
    m = ABORT.match(c.path)
    if m and (m.group(2) == "panicking" or m.group(3).split("::")[-1] in ABORT_NAMES or m.group(3).startswith("panic")):
        return "abort"
    return None


def map_index(c):
    return c is not None and c.decl == "core::ops::Index::index" and bool(re.search(r"(HashMap|BTreeMap)", c.path))


def own(span):
    """Whether the construct is written in the crate: not in the expansion of
    a dependency's macro."""
    ms = [m for m in span.get("m", [])]
    return not any("::" in m and m.split("::")[0] not in ("core", "std", "alloc", "crate") for m in ms)


class Site:
    __slots__ = ("fn", "bi", "kind", "span", "what")

    def __init__(self, fn, bi, kind, span, what):
        self.fn, self.bi, self.kind, self.span, self.what = fn, bi, kind, span, what

    @property
    def key(self):
        return "%s/%s" % (self.fn.path.replace("crate::", ""), self.what)


def sites(p):
    for fn in sorted(p.fns.values(), key=lambda f: f.path):
        live = fn.reachable_blocks()
        for i, t, c in fn.calls():
            if i not in live:
                continue
            k = is_abort(c)
            if k is None and map_index(c):
                k = "map"
            if k is not None:
                yield Site(fn, i, k, t["s"], c.path.split("::")[-1])
                continue
            # an aborting function passed on as a value
            for a in t["a"]:
                for x in consts(a):
                    ty = p.types[x["t"]] if "t" in x else None
                    d = norm(ty.d) if ty is not None and ty.k == "fndef" and ty.d else ""
                    if d in UNWRAP:
                        yield Site(fn, i, "value", t["s"], "passes on " + d.split("::")[-1])


# ---------------------------------------------------------------------------
# Whole-program facts about enums

class Enums:
    """Variants that are ever built, and the least number put into them."""

    def __init__(self, p):
        self.p = p
        self.open = self.given(p)
        self.built = {}
        self.where = {}
        for fn in p.fns.values():
            if fn.derived and fn.trait and fn.trait.endswith("Clone"):
                continue
            live = fn.reachable_blocks()
            for i, b in fn.live_blocks():
                if i not in live:
                    continue
                self.scan(b, fn)
        self.least = {}

    def given(self, p):
        """Types of which a user of the crate can hand in values."""
        out = set()

        def add(ty):
            for x in ty.walk():
                if x.k == "adt" and x.d not in out:
                    out.add(x.d)
                    a = p.adts.get(x.d)
                    if a:
                        for v in a["variants"]:
                            for f in v["fields"]:
                                if f["pub"] and f.get("ty") is not None:
                                    add(p.types[f["ty"]])
        for fn in p.fns.values():
            if fn.kind == "fn" and fn.reachable and not fn.derived and not fn.trait:
                for t in fn.locals[1:1 + fn.argc]:
                    if t.k == "ref" and not t.mut and t.peel().k == "adt" and fn.self_adt == t.peel().adt():
                        continue      # its own, which it was given by the crate
                    add(t)
        return out

    def scan(self, x, fn):
        p = self.p
        if isinstance(x, dict):
            if x.get("ak") == "adt" and "d" in x:
                self.add(norm(x["d"]), x.get("v"), fn)
            elif "adt" in x and "variant" in x:
                self.add(norm(x["adt"]), x["variant"], fn)
            if isinstance(x.get("fn"), dict) and "d" in x["fn"]:
                d = norm(x["fn"].get("r") or x["fn"]["d"])
                if d.rsplit("::", 1)[0] in p.adts:
                    self.add(d.rsplit("::", 1)[0], d.rsplit("::", 1)[1], None)
            for y in x.values():
                if isinstance(y, (dict, list)):
                    self.scan(y, fn)
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, (dict, list)):
                    self.scan(y, fn)

    def add(self, adt, variant, fn):
        self.built.setdefault(adt, set()).add(variant)
        self.where.setdefault((adt, variant), set()).add(fn.path if fn else None)

    def possible(self, adt):
        """Variants a value of this type can have; None: any."""
        a = self.p.adts.get(adt)
        if a is None or not a["local"] or a["kind"] != "enum" or adt in self.open:
            return None
        return self.built.get(adt, set())

    def lower(self, adt, variant, i):
        """Least number ever put into a field of a variant (0: unknown)."""
        k = (adt, variant, i)
        if k not in self.least:
            self.least[k] = 0
            fns = self.where.get((adt, variant), set())
            if adt in self.open or None in fns or not fns:
                return 0
            got = []

            class C(Policy):
                max_depth = 4

                def aggregate(self, I, st, fr, bi, span, term):
                    if term.a[0] == adt and term.a[1] == variant and term.op == "agg":
                        got.append(smallest(I, st, I.deep(st, dict(zip(term.a[2], term.a[3]))[i])))

            for f in sorted(fns):
                n = len(got)
                Interp(self.p, C()).run(self.p.fns[f])
                if len(got) == n:
                    got.append(0)
            self.least[k] = min(got)
        return self.least[k]


def smallest(I, st, t, d=0):
    """A number that the integer `t` is never below."""
    if d > 8:
        return 0
    if t.op == "const":
        return t.a[1] if isinstance(t.a[1], int) and not isinstance(t.a[1], bool) else 0
    if t.op == "phi":
        return min([smallest(I, st, x, d + 1) for x in I.phi_inputs(t)] or [0])
    if t.op == "cast":
        return smallest(I, st, t.a[0], d + 1) if isinstance(t.a[0], Term) else 0
    if t.op == "bin" and t.a[0].startswith("Add"):
        return smallest(I, st, t.a[1], d + 1) + smallest(I, st, t.a[2], d + 1)
    if t.op == "bin" and t.a[0].startswith("Mul"):
        return smallest(I, st, t.a[1], d + 1) * smallest(I, st, t.a[2], d + 1)
    if t.op == "f" and t.a[0].op in ("bin", "call"):
        return smallest(I, st, t.a[0], d + 1)      # result of a checked operation
    if t.op == "call":
        n = t.a[0].split("::")[-1]
        if n == "len_utf8":
            return 1
        if n == "max":
            return max(smallest(I, st, x, d + 1) for x in t.a[1])
        if n == "min":
            return min(smallest(I, st, x, d + 1) for x in t.a[1])
        if n == "len" and len(t.a[1]) == 1 and nonempty(I, st, t.a[1][0]):
            return 1
    f = st.facts.get(T("bin", "Gt", t, const(0)))
    if f is True:
        return 1
    f = st.facts.get(t)
    if isinstance(f, tuple) and f[0] == "notint" and 0 in f[1]:
        return 1
    if isinstance(f, tuple) and f[0] == "int":
        return f[1]
    return 0


def nonempty(I, st, t):
    for k, v in st.facts.items():
        if k.op == "call" and k.a[0].split("::")[-1] in ("is_empty",) and v is False and k.a[1] and k.a[1][0] == t:
            return True
        if k.op == "call" and k.a[0].split("::")[-1] in ("starts_with", "ends_with", "contains") and v is True and k.a[1] and k.a[1][0] == t:
            return True
    return t.op == "const" and isinstance(t.a[1], str) and t.a[1] != ""


# ---------------------------------------------------------------------------
# Reachability

class World(Interp):
    """Leaves out variants that are never built."""

    def __init__(self, p, client, enums):
        super().__init__(p, client)
        self.enums = enums

    def known_variants(self, st, t, adt):
        vs = super().known_variants(st, t, adt)
        if t.op != "agg":
            poss = self.enums.possible(adt)
            if poss is not None:
                vs = vs & frozenset(poss)
        return vs


CMP = {"Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b, "Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b,
       "Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b}


def contradicts(I, st, enums):
    """Whether what is known on the path cannot be, given what is put into
    the variants."""
    for t, v in st.facts.items():
        n = None
        if t.op == "bin" and t.a[0] in CMP and isinstance(v, bool):
            a, b = t.a[1], t.a[2]
            if a.op == "f" and b.op == "const":
                x, c, op = a, b.a[1], t.a[0]
            elif b.op == "f" and a.op == "const":
                x, c, op = b, a.a[1], {"Gt": "Lt", "Ge": "Le", "Lt": "Gt", "Le": "Ge"}.get(t.a[0], t.a[0])
            else:
                continue
            if not isinstance(c, int):
                continue
            n = lower_of(x, enums)
            # no number from n upwards satisfies the comparison as known
            sat = any(CMP[op](k, c) is v for k in range(n, max(n, c) + 2))
            if not sat:
                return True
        elif t.op == "f" and isinstance(v, tuple) and v[0] == "int":
            if v[1] < lower_of(t, enums):
                return True
    return False


def lower_of(x, enums):
    for adt in enums.p.adts:
        a = enums.p.adts[adt]
        if a["local"] and a["kind"] == "enum" and any(v["name"] == x.a[1] for v in a["variants"]) and (adt, x.a[1]) in enums.where:
            n = enums.lower(adt, x.a[1], x.a[2])
            if n:
                return n
    return 0


#: queries of the standard library that give the same answer again
PURE = {"get", "first", "last", "find", "rfind", "strip_prefix", "strip_suffix", "split_once", "rsplit_once", "as_ref", "as_deref",
        "name", "to_str", "captures", "peek", "checked_sub", "checked_add", "checked_div", "parse", "position"}


def nosite(t):
    """A term without the places of its calls."""
    if isinstance(t, Term):
        if t.op == "call":
            return ("call", t.a[0], nosite(t.a[1]))
        return (t.op,) + tuple(nosite(x) for x in t.a)
    if isinstance(t, tuple):
        return tuple(nosite(x) for x in t)
    return t


class Walk(Policy):
    max_depth = 6

    def __init__(self, p, target, enums, through):
        self.p, self.target, self.enums, self.through = p, {(s.fn.path, s.bi): s for s in target}, enums, through
        self.open = {}       # site -> reason
        self.entered = set()
        self.why = {}        # site -> how it was discharged

    def enter(self, I, ctx, fn, depth):
        return super().enter(I, ctx, fn, depth) or fn.path in self.through

    def entering(self, I, st, fr, bi):
        self.entered.add(fr.fn.path)

    def panic(self, I, st, fr, bi, term):
        s = self.target.get((fr.fn.path, bi))
        if s is not None and not contradicts(I, st, self.enums):
            self.open[s] = "is reached"

    def call(self, I, st, ctx):
        s = self.target.get((ctx.fr.fn.path, ctx.bi))
        if s is None or s.kind == "abort":
            return None
        if s.kind == "unwrap":
            why = self.fine(I, st, ctx)
            if why is None:
                if not contradicts(I, st, self.enums):
                    self.open[s] = "the value may be %s" % {"Some": "None", "Ok": "Err", "Err": "Ok"}[UNWRAP[ctx.path]]
            else:
                self.why.setdefault(s, set()).add(why)
        else:
            self.open[s] = "nothing shows that the value is there"
        return None

    def fine(self, I, st, ctx):
        want = UNWRAP[ctx.path]
        adt = OPTION if want == "Some" else RESULT
        whys = set()
        for x in I.phi_inputs(ctx.args[0]) if ctx.args[0].op == "phi" and ctx.args[0] not in st.facts else [ctx.args[0]]:
            if I.known_variants(st, x, adt) == frozenset([want]):
                whys.add("the path has tested it")
                continue
            w = self.always(I, st, x, want)
            if w is None:
                return None
            whys.add(w)
        return ", ".join(sorted(whys))

    def always(self, I, st, x, want):
        """Why a call yields the variant `want`."""
        if x.op != "call":
            return None
        n = x.a[0].split("::")[-1]
        if self.pure(x.a[0], n):
            y = nosite(x)
            for k, v in st.facts.items():
                if v == frozenset([want]) and k.op == "call" and k.a[0] == x.a[0] and nosite(k) == y:
                    return "the path has tested the same query"
        if want == "Ok":
            made = [y for y in subterms(x) if y.op == "call" and y.a[0] in MAKE]
            if x.a[0] in MAKE or n == "build" and made:
                for y in made:
                    if not (y.a[1] and y.a[1][0].op == "const" and isinstance(y.a[1][0].a[1], str)):
                        return None
                    try:
                        Pattern(y.a[1][0].a[1])
                    except (RxError, ValueError, IndexError, RecursionError) as e:
                        return None
                return "its pattern is well-formed" if made else None
            if n in ("write_str", "write_fmt", "write_char") and x.a[1] and "String" in x.a[0]:
                return "writing to a String does not fail"
            return None
        if want != "Some":
            return None
        if CAP_GET.search(x.a[0]):
            if len(x.a[1]) > 1 and cval(x.a[1][1]) == 0:
                return "group 0 is there whenever there is a match"
            return "decided by C02"
        return self.text(I, st, x, n)

    def pure(self, path, n):
        f = self.p.fns.get(path)
        if f is not None:
            return not any(t.k == "ref" and t.mut for t in f.locals[1:1 + f.argc])
        return n in PURE

    def text(self, I, st, x, n):
        """Queries of a text or a list whose result a test has settled."""
        if not x.a[1]:
            return None
        base, rest = x.a[1][0], tuple(x.a[1][1:])
        if n in ("first", "last", "pop", "split_first", "split_last") and nonempty(I, st, base):
            return "it is not empty"
        if n in ("next", "next_back", "last") and base.op == "call" and base.a[0].split("::")[-1] in ("chars", "char_indices", "bytes", "iter", "into_iter") \
                and base.a[1] and nonempty(I, st, base.a[1][0]):
            return "it is not empty"
        if n == "next" and base.op == "call" and base.a[0].split("::")[-1] in ("split", "splitn", "rsplit", "rsplitn"):
            return "splitting a text yields at least one part"
        pair = {"strip_prefix": ("starts_with",), "strip_suffix": ("ends_with",), "find": ("contains", "starts_with", "ends_with"),
                "rfind": ("contains", "starts_with", "ends_with"), "split_once": ("contains", "starts_with", "ends_with"),
                "rsplit_once": ("contains", "starts_with", "ends_with"), "get": ("contains_key",), "remove": ("contains_key",),
                "captures": ("is_match",)}.get(n)
        if pair:
            for k, v in st.facts.items():
                if v is True and k.op == "call" and k.a[0].split("::")[-1] in pair and k.a[1] and k.a[1][0] == base and tuple(k.a[1][1:]) == rest:
                    return "the path has tested that there is one"
        return None


def callers(p):
    up = {}
    for f, es in p.edges().items():
        for e in es:
            up.setdefault(e, set()).add(f)
    return up


def check(p, rep):
    enums = Enums(p)
    up = callers(p)
    n = 0
    todo = {}
    for s in sites(p):
        n += 1
        rep.ob(s.key, loc(s.span))
        if not own(s.span):
            rep.count("in code generated by a dependency's macro")
            continue
        if s.kind == "value":
            rep.bad(s.key, s.span, "%s %s, which aborts on an absent value" % (s.fn.path, s.what))
            continue
        todo.setdefault(s.fn.path, []).append(s)
    for path in sorted(todo):
        for s, why, via in prove(p, rep, enums, up, todo[path], (path,)):
            rep.bad(s.key, s.span, "%s in %s%s: %s" % (
                s.what, s.fn.path, " (called from %s)" % " < ".join(via[1:]) if len(via) > 1 else "", why))
    rep.floor("explicit abort sites", n, 1)
    rep.count("functions with sites", len(todo))


def prove(p, rep, enums, up, ss, chain):
    """Sites of one function that are not discharged, as (site, why, chain).
    `chain` leads from the function to the one the analysis starts at."""
    top = chain[-1]
    w = Walk(p, ss, enums, frozenset(chain[:-1]))
    World(p, w, enums).run(p.fns[top])
    for s, ws in w.why.items():
        for x in ws:
            rep.count("discharged: " + x)
    if len(chain) > 1 and chain[0] not in w.entered:
        # called in a way that is not followed (through a pointer, say)
        return [(s, "its caller is not followed", chain) for s in ss]
    left = [s for s in ss if s in w.open]
    for s in ss:
        if s not in w.open and s not in w.why:
            rep.count("discharged: no path reaches it")
    if not left:
        return []
    fn = p.fns[top]
    ups = sorted(u for u in up.get(top, ()) if u not in chain)
    if fn.kind == "fn" and (fn.reachable or fn.trait) or not ups or len(chain) > 4:
        return [(s, w.open[s], chain) for s in left]
    out = []
    for u in ups:
        out += prove(p, rep, enums, up, left, chain + (u,))
        done = {s for s, _, _ in out}
        left = [s for s in left if s not in done]      # one path is enough
        if not left:
            break
    return out
