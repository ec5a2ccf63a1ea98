"""Four queries over the MIR. (1) A concrete renderer becomes the dyn renderer
only where a parser is given its default or the caller's renderer; no method
of a concrete renderer is called directly from outside a renderer. (2) Parsing
makes a new parser only in functions from which no text or part of a document
can reach the result. (3) No string constant that contains a tag or character
entity is put into text by a function that runs outside the renderer
(constants used only to test or split text, or as patterns, do not count).
(4) The operation that installs a renderer stores the one it was given."""

from checks.common import *
from engine.interp import Client, Interp, T, subterms

TECH = "who-may-construct and constant-flow queries over MIR"
NOTE = ("Exhaustive over all bodies. A string counts as markup if it contains '<' or a character entity; markup assembled "
        "from computed characters would be missed. Constants in the table of built-in attribute values are exempt, "
        "being attribute values.")

TRAIT = "InlineSubstitutionRenderer"
TEST_SINK = {"starts_with", "ends_with", "contains", "eq", "ne", "split", "split_once", "rsplit_once", "splitn", "strip_prefix",
             "strip_suffix", "find", "rfind", "matches", "trim_matches", "trim_start_matches", "trim_end_matches", "rsplit", "cmp",
             "partial_cmp", "eq_ignore_ascii_case", "split_terminator", "match_indices", "find_iter", "is_match", "get",
             "contains_key"}
ENTITY = re.compile(r"&(?:[a-zA-Z]+\d*|#\d+|#x[0-9a-fA-F]+);")
TEXTY = ("Content", "Block", "String", "CowStr", "Cow", "Attrlist", "Header", "Document")


def markup(x):
    return "<" in x or x == ">" or ENTITY.search(x) is not None


def check(p, rep):
    concrete = {im["_self"].adt() for im in p.trait_impls(TRAIT)}
    concrete.discard(None)
    rep.floor("built-in renderers", len(concrete), 1)
    impl_fns = {fn.path for fn in p.fns.values() if fn.self_adt in concrete}
    padt = p.adt("Parser")

    # (1)
    ncast = 0
    for fn in p.fns.values():
        for span, src in unsize_casts(p, fn, TRAIT):
            if src is None:
                rep.bad("cast/" + fn.path, span, "%s makes a renderer object of unknown origin" % fn.path)
                continue
            if any(x.k == "dyn" for x in src.walk()):
                continue
            ncast += 1
            key = "renderer-made/" + fn.path
            rep.ob(key, loc(span))
            is_param = any(x.k == "param" for x in src.walk())
            if fn.trait and p.last(fn.trait) == "Default" and fn.self_adt == padt:
                continue
            if is_param and fn.self_adt == padt:
                continue
            if fn.path in impl_fns:
                # A renderer may hand itself on.
                continue
            rep.bad(key, span, "%s makes a renderer of its own (%s) instead of using the configured one" % (fn.path, src))
        if fn.path in impl_fns or in_renderer(fn, impl_fns):
            continue
        for i, t, c in fn.calls():
            if c is None:
                continue
            tgt = p.fns.get(c.path)
            if tgt is not None and tgt.path in impl_fns and not (tgt.trait and p.last(tgt.trait) in ("Debug", "Clone", "Default")):
                rep.bad("direct/%s/%s" % (fn.path, c.path), t["s"], "%s calls %s directly instead of the configured renderer" % (fn.path, c.path))
    rep.floor("places that make a renderer object", ncast, 1)
    nvirt = 0
    for fn in p.fns.values():
        for i, t, c in fn.calls():
            if c is not None and c.kind == "virtual" and c.trait and p.last(c.trait) == TRAIT:
                nvirt += 1
                rep.ob("render-call/%s/%s" % (fn.path, c.name), loc(t["s"]))
    rep.floor("calls of the configured renderer", nvirt, 1)

    # (2)
    parse = p.method("Parser", "parse")
    for f in sorted(p.reach([parse.path])):
        fn = p.fns[f]
        if fn.trait and p.last(fn.trait) in ("Default", "Clone"):
            continue
        for i, t, c in fn.calls():
            if c is not None and c.trait and p.last(c.trait) == "Default" and c.self_ty is not None and c.self_ty.adt() == padt:
                rep.ob("new-parser/" + fn.path, loc(t["s"]))
                if escapes(p, fn, parse, set()):
                    rep.bad("new-parser/" + fn.path, t["s"],
                            "%s makes a parser with the built-in renderer, and what it parses can get into the result" % fn.path)
        for i, b in fn.live_blocks():
            for s in b["st"]:
                r = s.get("r")
                if r and r["k"] == "agg" and r["ak"] == "adt" and norm(r["d"]) == padt:
                    rep.bad("parser-literal/" + fn.path, s["s"], "%s builds a parser while parsing" % fn.path)

    # (3) what runs outside the renderer
    roots = [r for r in p.public_roots() if r not in impl_fns]
    roots += [f.path for f in p.fns.values() if f.kind not in ("fn", "closure", "promoted") and not in_renderer(f, impl_fns)]
    outside = p.reach(roots, stop=impl_fns)
    patterns = {}
    for fn in p.fns.values():
        for x, sink, span in const_uses(p, fn):
            if "Regex" in sink:
                patterns.setdefault(fn.file, []).append(x)
    # Code that escapes special characters has no business writing entities.
    for fn in p.fns.values():
        for i, t, c in fn.calls():
            if c is not None and c.name == "render_special_character":
                patterns.pop(fn.file, None)
    nconst = 0
    for f in sorted(outside):
        fn = p.fns[f]
        if fn.trait and p.last(fn.trait) in ("Debug", "Display"):
            continue
        if "{promoted" in fn.path or strip_closures(fn.path).endswith("built_in_attrs"):
            continue
        for x, sink, span in const_uses(p, fn):
            if not markup(x):
                continue
            nconst += 1
            name = sink.split("::")[-1]
            rep.ob("constant/%s/%r -> %s" % (fn.path, x[:40], name), loc(span))
            if "Regex" in sink or sink.startswith("core::panicking") or "assert" in name or name in TEST_SINK:
                continue
            # Text that a pattern of this file matches, put back.
            if re.fullmatch(r"&(lt|gt|amp);", x) and any(x in y for y in patterns.get(fn.file, [])):
                continue
            # A separator of URL parameters, escaped.
            if re.match(r"^&amp;\w+=$", x):
                continue
            rep.bad("constant/%s/%s" % (fn.path, x[:40]), span, "%s puts %r into text by itself (%s) instead of calling the renderer" % (fn.path, x[:60], name))
    rep.floor("markup-like constants outside the renderer", nconst, 1)

    # (4)
    inst = [fn for fn in p.fns.values() if fn.kind == "fn" and fn.reachable and fn.self_adt == padt
            and any(src is not None and any(x.k == "param" for x in src.walk()) for s, src in unsize_casts(p, fn, TRAIT))]
    rep.floor("operations that install a renderer", len(inst), 1)
    for fn in inst:
        I = Interp(p, Client())
        rep.ob("install/" + fn.path, loc(fn.raw["span"]))
        for st, v in I.run(fn):
            v = I.deep(st, v)
            r = I.proj1(v, "renderer")
            if not all(any(y is T("p", 2) for y in subterms(x)) for x in I.phi_inputs(r)):
                rep.bad("install/" + fn.path, fn.raw["span"], "%s does not store the renderer it is given" % fn.path)


def strip_closures(path):
    return re.sub(r"(::\{closure#\d+\})+$", "", path)


def in_renderer(fn, impl_fns):
    return any(fn.path.startswith(f + "::{closure") or fn.path.startswith(f + "::{promoted") for f in impl_fns)


def escapes(p, fn, top, seen):
    """Whether what `fn` computes can get into a document, via its callers."""
    if fn.path in seen:
        return False
    seen.add(fn.path)
    if not carries_text(p, fn):
        return False
    if fn.path == top.path or fn.reachable:
        return True
    callers = [f for f, out in p.edges().items() if fn.path in out]
    return not callers or any(escapes(p, p.fns[f], top, seen) for f in callers)


def carries_text(p, fn):
    """Whether text can leave a function through its return value or a
    mutable argument."""
    def texty(ty):
        return any((x.k == "adt" and p.last(x.d) in TEXTY) or x.k in ("param", "str")
                   or (x.k == "adt" and x.raw.get("local") and p.last(x.d) not in ("Span", "Warning", "WarningType"))
                   for x in ty.walk())
    if texty(fn.locals[0]):
        return True
    return any(ty.k == "ref" and ty.mut and texty(ty.inner) for ty in fn.locals[1:fn.argc + 1])
