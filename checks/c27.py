"""Every unsafe block, unsafe function, unsafe impl and extern block in the
expanded crate must come from the expansion of a macro of the standard library
or of a dependency; none may be written in the crate itself (including its own
macros)."""

from checks.common import *

TECH = "query over unsafe constructs in the type-checked program"
NOTE = "Exhaustive over the expanded crate. Trusts the unsafe code of the standard library, self_cell and the other dependencies."


def check(p, rep):
    n = 0
    for u in p.raw["unsafes"]:
        n += 1
        ms = u["span"].get("m", [])
        own = not ms or any(m.startswith("crate::") for m in ms)
        key = "%s/%s" % (u["what"], norm(u["owner"]))
        rep.ob(key, loc(u["span"]))
        if own:
            rep.bad(key, u["span"], "%s in %s" % (u["what"], norm(u["owner"])))
    rep.floor("unsafe constructs from library macros", n, 1)
    rep.count("bodies", len(p.fns))
