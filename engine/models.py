"""What the interpreter knows about library functions.

Each model takes (interp, state, ctx, frame) and returns [(state, value)]."""

from .interp import (T, const, cval, some, NONE, OPTION, RESULT, CFLOW, Infeasible, UNIT)

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


# --- transparent: the result is (a view of, or a copy of) the argument -------

def transparent(I, st, c, fr):
    """Shares or copies its argument: the value it refers to."""
    a = c.raw[0]
    return [(st, a)]


def copying(I, st, c, fr):
    """A copy of what the argument refers to."""
    return [(st, c.args[0])]


for n in [
    "<alloc::string::String as core::ops::deref::Deref>::deref",
    "<alloc::borrow::Cow<B> as core::ops::deref::Deref>::deref",
    "<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref",
    "<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut",
    "<alloc::string::String as core::ops::deref::DerefMut>::deref_mut",
    "<alloc::rcs::rc::Rc<T, A> as core::ops::deref::Deref>::deref",
    "<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref",
    "<std::sync::lazy_lock::LazyLock<T, F> as core::ops::deref::Deref>::deref",
    "<alloc::string::String as core::convert::AsRef<str>>::as_ref",
    "<str as core::convert::AsRef<str>>::as_ref",
    "<alloc::borrow::Cow<T> as core::convert::AsRef<T>>::as_ref",
    "alloc::string::String::as_str", "alloc::string::String::as_mut_str",
    "alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::as_slice",
    "core::borrow::Borrow::borrow", "<T as core::borrow::Borrow<T>>::borrow",
    "core::option::Option::<T>::as_ref", "core::option::Option::<T>::as_mut",
    "core::option::Option::<T>::as_deref", "core::option::Option::<T>::as_deref_mut",
    "core::result::Result::<T, E>::as_ref",
    "core::hint::must_use", "core::convert::identity", "core::mem::ManuallyDrop::<T>::new",
    "<I as core::iter::traits::collect::IntoIterator>::into_iter",
    "<T as core::convert::From<T>>::from",
    "str::as_bytes", "alloc::string::String::into_boxed_str", "alloc::string::String::as_bytes",
    "crate::strings::CowStr::into_string", "alloc::borrow::Cow::<B>::into_owned",
    "regex::regex::string::Match::as_str",
    "core::str::as_bytes",
]:
    MODELS[n] = transparent

for n in [
    "<T as alloc::string::ToString>::to_string", "<str as alloc::borrow::ToOwned>::to_owned",
    "<T as alloc::borrow::ToOwned>::to_owned", "<[T] as alloc::borrow::ToOwned>::to_owned",
    "<T as core::convert::Into<U>>::into", "core::convert::Into::into", "core::convert::From::from",
    "core::option::Option::<&T>::cloned", "core::option::Option::<&T>::copied",
    "core::option::Option::<&mut T>::cloned", "core::option::Option::<&mut T>::copied",
    "core::clone::Clone::clone", "<&T as core::clone::Clone>::clone",
    "alloc::boxed::Box::<T>::new", "alloc::rcs::rc::Rc::<T>::new",
    "alloc::str::into_string", "str::into_string", "str::to_string",
    "core::convert::AsRef::as_ref",
]:
    MODELS[n] = copying


def is_copying(c):
    """Clone, ToString, From and Deref implementations of this crate's own
    string types and derived clones copy or show their argument."""
    return (c.callee is not None and c.callee.name in ("clone",) and len(c.raw) == 1)


class Models(dict):
    pass


def lookup(I, path, c):
    return MODELS.get(path)


# --- Option / Result ---------------------------------------------------------

def split(I, st, x, adt):
    """States in which `x` has each of its possible variants."""
    x = I.deep(st, x)
    out = []
    from .interp import ORDER
    for v in sorted(I.known_variants(st, x, adt)):
        s2 = st.copy()
        try:
            I.constrain_variant(s2, x, frozenset([v]), ORDER[adt])
            # The client sees the test as it sees any switch.
            I.client.branch(I, s2, None, None, x, v)
        except Infeasible:
            continue
        out.append((v, s2))
    return out


def payload(I, x, v):
    return I.proj1(x, (v, "0"))


def adt_of(c):
    return RESULT if "result::Result" in c.path or "result::Result" in (c.callee.decl if c.callee else "") else OPTION


GOOD = {OPTION: "Some", RESULT: "Ok"}


def opt(*names):
    ns = []
    for n in names:
        ns += ["core::option::Option::<T>::" + n, "core::result::Result::<T, E>::" + n]
    return model(*ns)


@opt("is_some", "is_ok")
def m_is_some(I, st, c, fr):
    adt = adt_of(c)
    return [(st, isv(I, st, I.deep(st, c.raw[0]), GOOD[adt], adt))]


@opt("is_none", "is_err")
def m_is_none(I, st, c, fr):
    adt = adt_of(c)
    x = isv(I, st, I.deep(st, c.raw[0]), GOOD[adt], adt)
    if x.op == "const":
        return [(st, const(not x.a[1]))]
    return [(st, T("un", "Not", x))]


def isv(I, st, x, v, adt):
    t = T("isv", x, v, adt)
    k = I.known_bool(st, t)
    return const(k) if k is not None else t


@opt("map")
def m_map(I, st, c, fr):
    adt = adt_of(c)
    x = deref_opt(I, st, c.raw[0])
    out = []
    for v, s in split(I, st, x, adt):
        if v == GOOD[adt]:
            for s2, r in I.apply(s, c.raw[1], [payload(I, x, v)], fr, c, "map"):
                out.append((s2, T("agg", adt, v, ("0",), (r,))))
        elif adt == OPTION:
            out.append((s, NONE))
        else:
            out.append((s, T("agg", adt, v, ("0",), (payload(I, x, v),))))
    return out


def deref_opt(I, st, raw):
    """The option value: an option passed by value may hold addresses, which
    are kept; one behind a reference is read."""
    if raw.op == "ref":
        return I.load(st, raw.a[0], raw.a[1])
    if any(k[0] is raw for k in st.store):
        return I.load(st, raw, ())
    return raw


@opt("and_then")
def m_and_then(I, st, c, fr):
    adt = adt_of(c)
    x = deref_opt(I, st, c.raw[0])
    out = []
    for v, s in split(I, st, x, adt):
        if v == GOOD[adt]:
            out += I.apply(s, c.raw[1], [payload(I, x, v)], fr, c, "and_then")
        elif adt == OPTION:
            out.append((s, NONE))
        else:
            out.append((s, T("agg", adt, v, ("0",), (payload(I, x, v),))))
    return out


@opt("or_else")
def m_or_else(I, st, c, fr):
    adt = adt_of(c)
    x = deref_opt(I, st, c.raw[0])
    out = []
    for v, s in split(I, st, x, adt):
        if v == GOOD[adt]:
            out.append((s, T("agg", adt, v, ("0",), (payload(I, x, v),))))
        else:
            out += I.apply(s, c.raw[1], [] if adt == OPTION else [payload(I, x, v)], fr, c, "or_else")
    return out


@opt("or")
def m_or(I, st, c, fr):
    adt = adt_of(c)
    x = deref_opt(I, st, c.raw[0])
    out = []
    for v, s in split(I, st, x, adt):
        if v == GOOD[adt]:
            out.append((s, T("agg", adt, v, ("0",), (payload(I, x, v),))))
        else:
            out.append((s, c.raw[1]))
    return out


@opt("and")
def m_and(I, st, c, fr):
    adt = adt_of(c)
    x = deref_opt(I, st, c.raw[0])
    return [(s, c.raw[1] if v == GOOD[adt] else NONE) for v, s in split(I, st, x, adt)]


@opt("unwrap_or")
def m_unwrap_or(I, st, c, fr):
    adt = adt_of(c)
    x = deref_opt(I, st, c.raw[0])
    out = []
    for v, s in split(I, st, x, adt):
        out.append((s, payload(I, x, v) if v == GOOD[adt] else c.raw[1]))
    return out


@opt("unwrap_or_default")
def m_unwrap_or_default(I, st, c, fr):
    adt = adt_of(c)
    x = deref_opt(I, st, c.raw[0])
    out = []
    for v, s in split(I, st, x, adt):
        out.append((s, payload(I, x, v) if v == GOOD[adt] else T("call", "core::default::Default::default", (), c.site)))
    return out


@opt("unwrap_or_else")
def m_unwrap_or_else(I, st, c, fr):
    adt = adt_of(c)
    x = deref_opt(I, st, c.raw[0])
    out = []
    for v, s in split(I, st, x, adt):
        if v == GOOD[adt]:
            out.append((s, payload(I, x, v)))
        else:
            out += I.apply(s, c.raw[1], [] if adt == OPTION else [payload(I, x, v)], fr, c, "unwrap_or_else")
    return out


@opt("map_or")
def m_map_or(I, st, c, fr):
    adt = adt_of(c)
    x = deref_opt(I, st, c.raw[0])
    out = []
    for v, s in split(I, st, x, adt):
        if v == GOOD[adt]:
            out += I.apply(s, c.raw[2], [payload(I, x, v)], fr, c, "map_or")
        else:
            out.append((s, c.raw[1]))
    return out


@opt("map_or_else")
def m_map_or_else(I, st, c, fr):
    adt = adt_of(c)
    x = deref_opt(I, st, c.raw[0])
    out = []
    for v, s in split(I, st, x, adt):
        if v == GOOD[adt]:
            out += I.apply(s, c.raw[2], [payload(I, x, v)], fr, c, "map_or_else")
        else:
            out += I.apply(s, c.raw[1], [] if adt == OPTION else [payload(I, x, v)], fr, c, "map_or_else0")
    return out


@opt("is_some_and", "is_ok_and")
def m_is_some_and(I, st, c, fr):
    adt = adt_of(c)
    x = deref_opt(I, st, c.raw[0])
    out = []
    for v, s in split(I, st, x, adt):
        if v == GOOD[adt]:
            out += I.apply(s, c.raw[1], [payload(I, x, v)], fr, c, "is_some_and")
        else:
            out.append((s, const(False)))
    return out


@opt("is_none_or")
def m_is_none_or(I, st, c, fr):
    x = deref_opt(I, st, c.raw[0])
    out = []
    for v, s in split(I, st, x, OPTION):
        if v == "Some":
            out += I.apply(s, c.raw[1], [payload(I, x, v)], fr, c, "is_none_or")
        else:
            out.append((s, const(True)))
    return out


@opt("filter")
def m_filter(I, st, c, fr):
    x = deref_opt(I, st, c.raw[0])
    out = []
    for v, s in split(I, st, x, OPTION):
        if v == "Some":
            for s2, r in I.apply(s, c.raw[1], [payload(I, x, v)], fr, c, "filter"):
                for val in (True, False):
                    k = I.known_bool(s2, r)
                    if k is not None and k is not val:
                        continue
                    s3 = s2.copy()
                    try:
                        I.constrain(s3, r, val)
                        I.tested(s3, None, None, r, val)
                    except Infeasible:
                        continue
                    out.append((s3, some(payload(I, x, v)) if val else NONE))
        else:
            out.append((s, NONE))
    return out


@opt("unwrap", "expect")
def m_unwrap(I, st, c, fr):
    adt = adt_of(c)
    x = deref_opt(I, st, c.raw[0])
    out = []
    for v, s in split(I, st, x, adt):
        if v == GOOD[adt]:
            out.append((s, payload(I, x, v)))
    return out


@opt("ok")
def m_ok(I, st, c, fr):
    x = deref_opt(I, st, c.raw[0])
    return [(s, some(payload(I, x, v)) if v == "Ok" else NONE) for v, s in split(I, st, x, RESULT)]


@opt("ok_or", "ok_or_else")
def m_ok_or(I, st, c, fr):
    x = deref_opt(I, st, c.raw[0])
    out = []
    for v, s in split(I, st, x, OPTION):
        if v == "Some":
            out.append((s, T("agg", RESULT, "Ok", ("0",), (payload(I, x, v),))))
        elif c.path.endswith("ok_or"):
            out.append((s, T("agg", RESULT, "Err", ("0",), (c.raw[1],))))
        else:
            for s2, r in I.apply(s, c.raw[1], [], fr, c, "ok_or_else"):
                out.append((s2, T("agg", RESULT, "Err", ("0",), (r,))))
    return out


@opt("take")
def m_take(I, st, c, fr):
    a = c.raw[0]
    root, path = I.target(a)
    v = I.load(st, root, path)
    st = st.copy()
    I.write(st, root, path, NONE)
    return [(st, v)]


@opt("replace")
def m_replace(I, st, c, fr):
    root, path = I.target(c.raw[0])
    v = I.load(st, root, path)
    st = st.copy()
    I.write(st, root, path, some(c.raw[1]))
    return [(st, v)]


@model("core::mem::take")
def m_mem_take(I, st, c, fr):
    root, path = I.target(c.raw[0])
    v = I.load(st, root, path)
    st = st.copy()
    I.write(st, root, path, T("call", "core::default::Default::default", (), c.site))
    return [(st, v)]


@model("core::mem::replace")
def m_mem_replace(I, st, c, fr):
    root, path = I.target(c.raw[0])
    v = I.load(st, root, path)
    st = st.copy()
    I.write(st, root, path, c.raw[1])
    return [(st, v)]


@model("<core::option::Option<T> as core::ops::try_trait::Try>::branch",
       "<core::result::Result<T, E> as core::ops::try_trait::Try>::branch")
def m_branch(I, st, c, fr):
    adt = adt_of(c)
    x = deref_opt(I, st, c.raw[0])
    out = []
    for v, s in split(I, st, x, adt):
        if v == GOOD[adt]:
            out.append((s, T("agg", CFLOW, "Continue", ("0",), (payload(I, x, v),))))
        else:
            r = NONE if adt == OPTION else T("agg", RESULT, "Err", ("0",), (payload(I, x, v),))
            out.append((s, T("agg", CFLOW, "Break", ("0",), (r,))))
    return out


@model("<core::option::Option<T> as core::ops::try_trait::FromResidual<core::option::Option<!>>>::from_residual",
       "<core::result::Result<T, F> as core::ops::try_trait::FromResidual<core::result::Result<!, E>>>::from_residual")
def m_residual(I, st, c, fr):
    if adt_of(c) == OPTION:
        return [(st, NONE)]
    return [(st, c.raw[0])]


@model("core::option::Option::<core::option::Option<T>>::flatten")
def m_flatten(I, st, c, fr):
    x = deref_opt(I, st, c.raw[0])
    return [(s, payload(I, x, v) if v == "Some" else NONE) for v, s in split(I, st, x, OPTION)]


@model("bool::then", "bool::then_some")
def m_then(I, st, c, fr):
    out = []
    for val in (True, False):
        k = I.known_bool(st, c.raw[0])
        if k is not None and k is not val:
            continue
        s = st.copy()
        try:
            I.constrain(s, c.raw[0], val)
            I.tested(s, None, None, c.raw[0], val)
        except Infeasible:
            continue
        if not val:
            out.append((s, NONE))
        elif c.path.endswith("then_some"):
            out.append((s, some(c.raw[1])))
        else:
            for s2, r in I.apply(s, c.raw[1], [], fr, c, "then"):
                out.append((s2, some(r)))
    return out


@model("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut",
       "core::ops::function::Fn::call")
def m_call(I, st, c, fr):
    f = c.raw[0]
    args = c.raw[1]
    if args.op == "tuple":
        lst = list(args.a[0])
    else:
        return None
    if I.closure_of(st, f) is None and f.op != "fn":
        return None
    return I.apply(st, f, lst, fr, c, "call")


@model("alloc::vec::Vec::<T, A>::is_empty", "alloc::string::String::is_empty", "str::is_empty", "[T]::is_empty",
       "regex::regex::string::Match::is_empty")
def m_is_empty(I, st, c, fr):
    x = I.deep(st, c.raw[0])
    if x.op == "const" and isinstance(x.a[1], (str, bytes)):
        return [(st, const(len(x.a[1]) == 0))]
    return [(st, T("call", "is_empty", (x,), ()))]


@model("str::len", "alloc::string::String::len", "alloc::vec::Vec::<T, A>::len", "[T]::len")
def m_len(I, st, c, fr):
    x = I.deep(st, c.raw[0])
    if x.op == "const" and isinstance(x.a[1], str):
        return [(st, const(len(x.a[1].encode())))]
    return [(st, T("un", "len", x))]


#: str predicates: pure, so equal arguments give the same term
PURE = {
    "str::starts_with", "str::ends_with", "str::contains", "<str as core::cmp::PartialEq>::eq",
    "str::eq_ignore_ascii_case", "char::is_alphanumeric", "char::is_alphabetic",
    "alloc::string::String::as_ptr", "[T]::contains",
}


def m_pure(I, st, c, fr):
    if any(I.closure_of(st, a) for a in c.raw):
        return None
    args = tuple(I.deep(st, a) for a in c.raw)
    if len(args) == 2 and all(a.op == "const" and isinstance(a.a[1], str) for a in args):
        x, y = args[0].a[1], args[1].a[1]
        n = c.path.split("::")[-1]
        return [(st, const({"starts_with": x.startswith(y), "ends_with": x.endswith(y),
                            "contains": y in x, "eq": x == y}.get(n, False)))]
    return [(st, T("call", c.path, args, ()))]


for n in PURE:
    MODELS[n] = m_pure


@model("<&A as core::cmp::PartialEq<&B>>::eq", "core::cmp::PartialEq::eq", "<alloc::string::String as core::cmp::PartialEq>::eq",
       "<alloc::string::String as core::cmp::PartialEq<str>>::eq", "<alloc::string::String as core::cmp::PartialEq<&str>>::eq",
       "<&str as core::cmp::PartialEq<alloc::string::String>>::eq")
def m_eq(I, st, c, fr):
    args = [I.deep(st, a) for a in c.raw]
    if all(a.op == "const" for a in args):
        return [(st, const(args[0].a[1] == args[1].a[1]))]
    if all(a.op == "agg" and not a.a[3] for a in args) and args[0].a[0] == args[1].a[0]:
        return [(st, const(args[0].a[1] == args[1].a[1]))]
    for x, y in (args, args[::-1]):
        # x == Enum::Unit
        if y.op == "agg" and not y.a[3] and I.is_enum(y.a[0]):
            return [(st, isv(I, st, x, y.a[1], y.a[0]))]
    return [(st, T("call", "eq", tuple(sorted(args, key=lambda t: t.id)), ()))]


@model("<&A as core::cmp::PartialEq<&B>>::ne", "core::cmp::PartialEq::ne", "<alloc::string::String as core::cmp::PartialEq<str>>::ne",
       "<&str as core::cmp::PartialEq<alloc::string::String>>::ne")
def m_ne(I, st, c, fr):
    (s, v), = m_eq(I, st, c, fr)
    if v.op == "const":
        return [(s, const(not v.a[1]))]
    return [(s, T("un", "Not", v))]


@model("core::fmt::Arguments::new")
def m_args(I, st, c, fr):
    from .fmt import decode
    tpl = I.deep(st, c.raw[0])
    vals = I.deep(st, c.raw[1])
    if tpl.op == "const" and isinstance(tpl.a[1], bytes) and vals.op == "array":
        parts = []
        for p in decode(tpl.a[1]):
            if isinstance(p, str):
                parts.append(const(p))
            else:
                parts.append(vals.a[0][p])
        return [(st, T("fmt", tuple(parts)))]
    return None


@model("core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst")
def m_args_str(I, st, c, fr):
    return [(st, T("fmt", (I.deep(st, c.raw[0]),)))]


@model("core::fmt::rt::Argument::new_display")
def m_arg(I, st, c, fr):
    return [(st, I.deep(st, c.raw[0]))]


@model("core::fmt::rt::Argument::new_debug", "core::fmt::rt::Argument::new_lower_hex", "core::fmt::rt::Argument::new_upper_hex")
def m_arg_dbg(I, st, c, fr):
    return [(st, T("call", c.path, (I.deep(st, c.raw[0]),), ()))]


@model("alloc::fmt::format")
def m_format(I, st, c, fr):
    return [(st, c.raw[0])]


@model("core::default::Default::default", "<alloc::string::String as core::default::Default>::default",
       "<alloc::vec::Vec<T> as core::default::Default>::default", "alloc::vec::Vec::<T>::new",
       "alloc::string::String::new", "<core::option::Option<T> as core::default::Default>::default")
def m_default(I, st, c, fr):
    if "option::Option" in c.path:
        return [(st, NONE)]
    if c.callee and c.callee.kind == "item" and c.path in I.prog.fns:
        return None
    return [(st, T("call", "new", (), c.site))]


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def m_vec_lit(I, st, c, fr):
    """vec![...]: the list of what was written to the new box."""
    root, path = I.target(c.raw[0])
    for r in (T("cast", root), root):
        for p in (("value", "value"), ("value",)):
            v = st.store.get((r, tuple(path) + p))
            if v is not None and v.op == "array":
                return [(st, I.deep(st, v))]
    return None


@model("<core::slice::iter::Iter<T> as core::iter::traits::iterator::Iterator>::any",
       "<core::slice::iter::Iter<T> as core::iter::traits::iterator::Iterator>::all",
       "<core::array::iter::IntoIter<T, N> as core::iter::traits::iterator::Iterator>::any",
       "<core::array::iter::IntoIter<T, N> as core::iter::traits::iterator::Iterator>::all",
       "core::iter::traits::iterator::Iterator::any", "core::iter::traits::iterator::Iterator::all")
def m_any(I, st, c, fr):
    """Over an array that is written out: one test after another."""
    x = I.deep(st, c.raw[0])
    while x.op == "call" and x.a[0].split("::")[-1] in ("iter", "into_iter", "copied", "cloned") and len(x.a[1]) == 1:
        x = x.a[1][0]
    if x.op != "array" or not 0 < len(x.a[0]) <= 8 or I.closure_of(st, c.raw[1]) is None:
        return None
    stop = c.path.endswith("any")
    going, out = [st], []
    for n, e in enumerate(x.a[0]):
        nxt = []
        for s in going:
            for s2, r in I.apply(s, c.raw[1], [e], fr, c, "any%d" % n):
                for val in (True, False):
                    k = I.known_bool(s2, r)
                    if k is not None and k is not val:
                        continue
                    s3 = s2.copy()
                    try:
                        I.constrain(s3, r, val)
                        I.tested(s3, None, None, r, val)
                    except Infeasible:
                        continue
                    if val is stop:
                        out.append((s3, const(stop)))
                    else:
                        nxt.append(s3)
        going = nxt
    return out + [(s, const(not stop)) for s in going]
