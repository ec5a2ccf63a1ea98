"""The schema is read as data: every reference must resolve, every name that
gets a default must be a declared property of the declared type, and the
alternatives of a choice by name must have different names. In the syntax tree
of the keyword that fills in defaults, every way in which it can write to the
node must be guarded by a test that the property is absent, and must store a
value of its own rather than the schema's."""

import json
import os
import subprocess

from checks.common import *
from engine.facts import REPO, VERIF

TECH = "reference and type resolution over the JSON schema; guard and alias analysis of the keyword's syntax tree"
NOTE = ("All references, defaults and choices of asg/schema.json; all writes in asg/lib. Trusts ajv to evaluate standard "
        "keywords as specified.")
NEEDS_FACTS = False

SCHEMA = "asg/schema.json"
STRUCTURAL = ("properties", "patternProperties", "$defs", "dependentSchemas")
LISTS = ("allOf", "anyOf", "oneOf", "prefixItems")
SINGLE = ("items", "additionalProperties", "unevaluatedProperties", "if", "then", "else", "not", "contains", "propertyNames")


def schemas(s, at="#"):
    """(path, subschema) of every schema inside a schema."""
    if not isinstance(s, dict):
        return
    yield at, s
    for k in STRUCTURAL:
        for n, x in s.get(k, {}).items():
            yield from schemas(x, "%s/%s/%s" % (at, k, n))
    for k in LISTS:
        for i, x in enumerate(s.get(k, [])):
            yield from schemas(x, "%s/%s/%d" % (at, k, i))
    for k in SINGLE:
        yield from schemas(s.get(k), "%s/%s" % (at, k))


class Schema:
    def __init__(self, root):
        self.root = root
        self.ids = {root.get("$id", "")}

    def resolve(self, ref):
        for i in self.ids:
            if i and ref.startswith(i):
                ref = ref[len(i):] or "#"
        if not ref.startswith("#"):
            return None
        x = self.root
        for part in [q for q in ref[1:].split("/") if q]:
            part = part.replace("~1", "/").replace("~0", "~")
            if isinstance(x, list) and part.isdigit() and int(part) < len(x):
                x = x[int(part)]
            elif isinstance(x, dict) and part in x:
                x = x[part]
            else:
                return None
        return x if isinstance(x, (dict, bool)) else None

    def parts(self, s, seen=None):
        """A schema and what it is composed of."""
        seen = seen if seen is not None else []
        if not isinstance(s, dict) or any(s is y for y in seen):
            return seen
        seen.append(s)
        if "$ref" in s:
            self.parts(self.resolve(s["$ref"]), seen)
        for x in s.get("allOf", []):
            self.parts(x, seen)
        for k in ("then", "else"):
            if k in s:
                self.parts(s[k], seen)
        return seen

    def props(self, s):
        out = {}
        for x in self.parts(s):
            for n, y in x.get("properties", {}).items():
                out.setdefault(n, []).append(y)
        return out

    def types(self, s):
        out = set()
        for x in self.parts(s):
            t = x.get("type")
            if t:
                out |= {t} if isinstance(t, str) else set(t)
            if "const" in x:
                out.add(jtype(x["const"]))
            out |= {jtype(v) for v in x.get("enum", [])}
        return out

    def values(self, s, name):
        """Values the property `name` of an object of this schema can have."""
        got = None
        for y in self.props(s).get(name, []):
            for x in self.parts(y):
                v = {x["const"]} if "const" in x else set(x["enum"]) if "enum" in x else None
                if v is not None:
                    got = v if got is None else got & v
        return got

    def accepts(self, s, v):
        """Whether a default value has the declared shape (outermost level)."""
        ts = self.types(s)
        t = jtype(v)
        if ts and t not in ts and not (t == "integer" and "number" in ts):
            return "is of type %s, not %s" % (t, "/".join(sorted(ts)))
        for x in self.parts(s):
            if "const" in x and x["const"] != v or "enum" in x and v not in x["enum"]:
                return "is not one of the declared values"
            if t == "array" and len(v) < x.get("minItems", 0):
                return "has too few items"
            if t == "object" and any(r not in v for r in x.get("required", [])):
                return "lacks a required property"
            if t == "string" and len(v) < x.get("minLength", 0):
                return "is too short"
        return None


def jtype(v):
    return {dict: "object", list: "array", str: "string", bool: "boolean", int: "integer", float: "number", type(None): "null"}[type(v)]


def check_schema(rep):
    with open(os.path.join(REPO, SCHEMA)) as f:
        root = json.load(f)
    S = Schema(root)
    refs = defs = choices = 0
    for at, s in schemas(root):
        if "$ref" in s:
            refs += 1
            key = "ref/%s/%s" % (at, s["$ref"])
            rep.ob(key, SCHEMA)
            if S.resolve(s["$ref"]) is None:
                rep.bad(key, SCHEMA, "%s refers to %s, which is not defined" % (at, s["$ref"]))
        if "defaults" in s:
            props = S.props(s)
            for n, v in s["defaults"].items():
                defs += 1
                key = "default/%s/%s" % (at, n)
                rep.ob(key, SCHEMA)
                if n not in props:
                    rep.bad(key, SCHEMA, "%s gives a default to %s, which is not one of its properties" % (at, n))
                    continue
                for y in props[n]:
                    why = S.accepts(y, v)
                    if why:
                        rep.bad(key, SCHEMA, "the default of %s in %s %s" % (n, at, why))
        req = s.get("required", [])
        props = S.props(s)
        closed = s.get("additionalProperties") is False or s.get("unevaluatedProperties") is False
        for n in req:
            if closed:
                key = "required/%s/%s" % (at, n)
                rep.ob(key, SCHEMA)
                if n not in props:
                    rep.bad(key, SCHEMA, "%s requires %s, which it does not allow" % (at, n))
        d = s.get("discriminator")
        if isinstance(d, dict):
            seen = {}
            for i, x in enumerate(s.get("oneOf", [])):
                choices += 1
                key = "choice/%s/%s" % (at, x.get("$ref", i))
                rep.ob(key, SCHEMA)
                vs = S.values(x, d["propertyName"])
                if not vs:
                    rep.bad(key, SCHEMA, "alternative %s of %s has no %s to tell it by" % (x.get("$ref", i), at, d["propertyName"]))
                    continue
                if not any(d["propertyName"] in y.get("required", []) for y in S.parts(x)):
                    rep.bad(key, SCHEMA, "alternative %s of %s does not require %s" % (x.get("$ref", i), at, d["propertyName"]))
                for v in sorted(vs, key=str):
                    if v in seen:
                        rep.bad(key, SCHEMA, "%s names both %s and %s in %s" % (v, seen[v], x.get("$ref", i), at))
                    seen[v] = x.get("$ref", i)
    rep.floor("references", refs, 1)
    rep.floor("defaults", defs, 1)
    rep.count("alternatives", choices)


# ---------------------------------------------------------------------------
# The keyword

FUNCS = ("ArrowFunctionExpression", "FunctionExpression", "FunctionDeclaration")
#: functions that neither change what they are given nor keep it
READERS = {"Object.entries", "Object.keys", "Object.values", "Object.hasOwn", "Object.getOwnPropertyNames", "Array.isArray",
           "Object.prototype.hasOwnProperty.call", "structuredClone", "JSON.stringify", "Reflect.has", "Reflect.ownKeys",
           "Object.fromEntries", "String", "Boolean", "Number"}
FRESH = {"structuredClone", "JSON.parse"}


def nodes(x):
    if isinstance(x, dict):
        if "type" in x:
            yield x
        for k, y in x.items():
            if k != "loc":
                yield from nodes(y)
    elif isinstance(x, list):
        for y in x:
            yield from nodes(y)


def text(n):
    """A canonical rendering of an expression."""
    if n is None:
        return ""
    t = n["type"]
    if t == "Identifier":
        return n["name"]
    if t == "Literal":
        return json.dumps(n.get("value"))
    if t == "MemberExpression":
        p = "[%s]" % text(n["property"]) if n["computed"] else "." + text(n["property"])
        return text(n["object"]) + p
    if t == "ChainExpression":
        return text(n["expression"])
    if t == "CallExpression":
        return "%s(%s)" % (text(n["callee"]), ",".join(text(a) for a in n["arguments"]))
    return "<%s %d %d>" % (t, n["start"], n["end"])


class Keyword:
    def __init__(self, file, tree, rep):
        self.file, self.tree, self.rep = file, tree, rep
        self.fns = {}
        self.consts = {}
        for n in nodes(tree):
            if n["type"] == "FunctionDeclaration" and n.get("id"):
                self.fns[n["id"]["name"]] = n
            if n["type"] == "VariableDeclarator" and n["id"]["type"] == "Identifier" and n.get("init"):
                if n["init"]["type"] in FUNCS:
                    self.fns[n["id"]["name"]] = n["init"]
                else:
                    self.consts[n["id"]["name"]] = n["init"]
        self.loopvars = {}
        for n in nodes(tree):
            if n["type"] == "ForOfStatement":
                pat = n["left"]["declarations"][0]["id"] if n["left"]["type"] == "VariableDeclaration" else n["left"]
                for x in names_of(pat).values():
                    self.loopvars[x] = n["right"]
        self.inside = []      # source ranges of the functions that get a node
        self.writes = 0
        self.depth = 0

    def bad(self, n, msg):
        self.rep.bad("keyword/%s" % msg.split(":")[0][:60], "%s:%d" % (self.file, n["loc"]["start"]["line"]), msg)

    def fn_of(self, n):
        if n["type"] in FUNCS:
            return n
        if n["type"] == "Identifier":
            return self.fns.get(n["name"])
        return None

    # Which functions get the node

    def handlers(self):
        """(function, name of its parameter for the node) of the keyword."""
        out = []
        for n in nodes(self.tree):
            if n["type"] != "Property" or n["key"].get("name", n["key"].get("value")) not in ("compile", "validate"):
                continue
            f = self.fn_of(n["value"])
            if f is None:
                continue
            if n["key"].get("name", n["key"].get("value")) == "validate":
                out.append((f, 1))
                continue
            body = f["body"]
            rets = [body] if body["type"] != "BlockStatement" else [
                r["argument"] for r in nodes(body) if r["type"] == "ReturnStatement" and r.get("argument")]
            for r in rets:
                g = self.fn_of(r)
                if g is not None:
                    out.append((g, 0))
        return out

    # Conditions: (key text, "absent"/"present") facts

    def facts(self, n, val, data):
        """What a condition being `val` says about properties of the node."""
        t = n["type"]
        if t == "UnaryExpression" and n["operator"] == "!":
            return self.facts(n["argument"], not val, data)
        if t == "LogicalExpression":
            if n["operator"] == "&&" and val or n["operator"] == "||" and not val:
                return self.facts(n["left"], val, data) | self.facts(n["right"], val, data)
            return set()
        if t == "BinaryExpression":
            if n["operator"] == "in" and text(n["right"]) in data:
                return {(text(n["left"]), "present" if val else "absent")}
            if n["operator"] in ("===", "!=="):
                a, b = n["left"], n["right"]
                for x, y in ((a, b), (b, a)):
                    undef = text(y) == "undefined" or y["type"] == "UnaryExpression" and y["operator"] == "void"
                    k = self.key(x, data)
                    if k is not None and undef:
                        eq = val is (n["operator"] == "===")
                        return {(k, "absent" if eq else "present")}
                    if x["type"] == "UnaryExpression" and x["operator"] == "typeof" and y.get("value") == "undefined":
                        k = self.key(x["argument"], data)
                        if k is not None:
                            eq = val is (n["operator"] == "===")
                            return {(k, "absent" if eq else "present")}
        if t == "CallExpression":
            c, args = text(n["callee"]), n["arguments"]
            if c in ("Object.hasOwn", "Object.prototype.hasOwnProperty.call", "Reflect.has") and len(args) == 2 and text(args[0]) in data:
                return {(text(args[1]), "present" if val else "absent")}
            if n["callee"]["type"] == "MemberExpression" and text(n["callee"]["property"]) == "hasOwnProperty" \
                    and text(n["callee"]["object"]) in data and len(args) == 1:
                return {(text(args[0]), "present" if val else "absent")}
            f = self.fn_of(n["callee"])
            if f is not None and f["body"]["type"] != "BlockStatement" and self.depth < 4:
                # a helper that is a test
                names = [p.get("name") for p in f["params"]]
                sub = dict(zip(names, args))
                inner = {a for a, e in sub.items() if text(e) in data}
                self.depth += 1
                fs = self.facts(f["body"], val, inner | data)
                self.depth -= 1
                return {(text(sub[k]) if k in sub else k, v) for k, v in fs}
        if t == "Identifier" and n["name"] in self.consts and self.depth < 4:
            self.depth += 1
            r = self.facts(self.consts[n["name"]], val, data)
            self.depth -= 1
            return r
        return set()

    def key(self, n, data):
        """The key, if `n` is a property of the node."""
        if n["type"] == "MemberExpression" and text(n["object"]) in data:
            return text(n["property"]) if n["computed"] else json.dumps(text(n["property"]))
        return None

    # Statements; `known` are the facts in force. Returns whether control
    # goes on afterwards, and the facts then.

    def stmts(self, ss, known, data):
        for s in ss:
            on, known = self.stmt(s, known, data)
            if not on:
                return False, known
        return True, known

    def stmt(self, s, known, data):
        t = s["type"]
        if t == "BlockStatement":
            return self.stmts(s["body"], known, data)
        if t == "IfStatement":
            self.expr(s["test"], known, data)
            a, ka = self.stmt(s["consequent"], known | self.facts(s["test"], True, data), data)
            kb = known | self.facts(s["test"], False, data)
            b = True
            if s.get("alternate"):
                b, kb = self.stmt(s["alternate"], kb, data)
            if a and b:
                return True, ka & kb
            return (a or b), (ka if a else kb)
        if t in ("ReturnStatement", "ThrowStatement", "ContinueStatement", "BreakStatement"):
            if s.get("argument"):
                self.expr(s["argument"], known, data)
            return False, known
        if t in ("ForOfStatement", "ForInStatement", "WhileStatement", "DoWhileStatement", "ForStatement"):
            k = set(known)
            if t in ("ForOfStatement",):
                self.expr(s["right"], known, data)
                k |= self.filtered(s["right"], s["left"]["declarations"][0]["id"] if s["left"]["type"] == "VariableDeclaration" else s["left"], data)
            self.stmt(s["body"], k, data)
            return True, known
        if t == "VariableDeclaration":
            for d in s["declarations"]:
                if d.get("init"):
                    if text(d["init"]) in data and d["id"]["type"] == "Identifier":
                        data.add(d["id"]["name"])
                    self.expr(d["init"], known, data)
            return True, known
        if t == "ExpressionStatement":
            self.expr(s["expression"], known, data)
            return True, known
        for k, v in s.items():
            if k != "loc":
                for x in (v if isinstance(v, list) else [v]):
                    if isinstance(x, dict) and "type" in x:
                        (self.stmt if x["type"].endswith("Statement") else self.expr)(x, known, data)
        return True, known

    def filtered(self, right, pat, data):
        """Facts about the loop variable from `.filter(test)`."""
        out = set()
        if right["type"] == "CallExpression" and right["callee"]["type"] == "MemberExpression" and text(right["callee"]["property"]) == "filter":
            f = self.fn_of(right["arguments"][0]) if right["arguments"] else None
            if f is not None and f["body"]["type"] != "BlockStatement" and f["params"]:
                a, b = names_of(f["params"][0]), names_of(pat)
                ren = {x: b[i] for i, x in a.items() if i in b}
                for k, v in self.facts(f["body"], True, data):
                    if k in ren:
                        out.add((ren[k], v))
        return out

    def expr(self, n, known, data):
        if n is None or not isinstance(n, dict):
            return
        t = n["type"]
        if t == "LogicalExpression":
            self.expr(n["left"], known, data)
            if n["operator"] == "&&":
                self.expr(n["right"], known | self.facts(n["left"], True, data), data)
            elif n["operator"] == "||":
                self.expr(n["right"], known | self.facts(n["left"], False, data), data)
            else:
                self.expr(n["right"], known, data)
            return
        if t == "ConditionalExpression":
            self.expr(n["test"], known, data)
            self.expr(n["consequent"], known | self.facts(n["test"], True, data), data)
            self.expr(n["alternate"], known | self.facts(n["test"], False, data), data)
            return
        if t == "AssignmentExpression":
            k = self.key(n["left"], data)
            if k is not None:
                self.write(n, k, n["operator"], n["right"], known, data)
            elif text(n["right"]) in data and n["left"]["type"] == "Identifier":
                data.add(n["left"]["name"])
            self.expr(n["right"], known, data)
            return
        if t == "UnaryExpression" and n["operator"] == "delete" and self.key(n["argument"], data) is not None:
            self.writes += 1
            self.bad(n, "a property of the node is deleted")
            return
        if t == "UpdateExpression" and self.key(n["argument"], data) is not None:
            self.writes += 1
            self.bad(n, "a property of the node is changed in place")
            return
        if t in FUNCS:
            # called from where it stands (forEach and the like)
            self.body(n, known, set(data) - {p.get("name") for p in n["params"]})
            return
        if t in ("CallExpression", "NewExpression"):
            self.call(n, known, data)
            return
        for k, v in n.items():
            if k != "loc":
                for x in (v if isinstance(v, list) else [v]):
                    if isinstance(x, dict) and "type" in x:
                        self.expr(x, known, data)

    def body(self, f, known, data):
        if f["body"]["type"] == "BlockStatement":
            self.stmt(f["body"], set(known), data)
        else:
            self.expr(f["body"], set(known), data)

    def call(self, n, known, data):
        c = text(n["callee"])
        args = n["arguments"]
        given = [i for i, a in enumerate(args) if text(a) in data]
        f = self.fn_of(n["callee"]) if n["callee"]["type"] in FUNCS + ("Identifier",) else None
        if c == "Object.assign" and args and text(args[0]) in data:
            self.writes += 1
            last = args[-1]
            ok = last["type"] == "ObjectExpression" and last["properties"] and last["properties"][-1]["type"] == "SpreadElement" \
                and text(last["properties"][-1]["argument"]) in data or text(last) in data and len(args) > 1
            if not ok:
                self.bad(n, "a value that is present is overwritten: Object.assign copies over it")
        elif c in ("Object.defineProperty", "Reflect.set", "Reflect.defineProperty") and 0 in given:
            self.writes += 1
            k = text(args[1]) if len(args) > 1 else "?"
            if (k, "absent") not in known:
                self.bad(n, "a value that is present is overwritten: %s" % c)
        elif f is not None:
            if self.depth < 4:
                names = [p.get("name") for p in f["params"]]
                inner = {names[i] for i in given if i < len(names)}
                ren = {text(a): names[i] for i, a in enumerate(args) if i < len(names) and names[i]}
                k2 = {(ren.get(k, k), v) for k, v in known}
                self.depth += 1
                self.body(f, k2 | set(known), inner | (data - set(names)))
                self.depth -= 1
        elif given and c not in READERS:
            self.writes += 1
            self.bad(n, "the node is passed to code that may change it: %s" % c)
        cal = n["callee"]
        if cal["type"] == "MemberExpression":
            self.expr(cal["object"], known, data)
        for a in args:
            if a["type"] in FUNCS and cal["type"] == "MemberExpression":
                k = set(known)
                if a["params"]:
                    k |= self.filtered(cal["object"], a["params"][0], data)
                self.body(a, k, set(data) - {p.get("name") for p in a["params"]})
            else:
                self.expr(a, known, data)

    def write(self, n, k, op, right, known, data):
        self.writes += 1
        self.rep.ob("keyword/write of data[%s]" % k, "%s:%d" % (self.file, n["loc"]["start"]["line"]))
        absent = (k, "absent") in known
        if op in ("??=", "||=") and not absent:
            self.bad(n, "a value that is present is overwritten: %s replaces null%s" % (op, "" if op == "??=" else ", 0, false and empty text"))
        elif op != "=" and not op in ("??=", "||="):
            self.bad(n, "a value that is present is changed: %s" % op)
        elif op == "=" and not absent:
            # data[k] = absent ? default : data[k]
            r = right
            if r["type"] == "ConditionalExpression":
                for br, val in ((r["consequent"], True), (r["alternate"], False)):
                    if (k, "absent") in self.facts(r["test"], val, data):
                        self.own(n, br)
                    elif self.key(br, data) != k:
                        self.bad(n, "a value that is present is overwritten: no test shows that the property is absent")
                return
            self.bad(n, "a value that is present is overwritten: no test shows that the property is absent")
        self.own(n, right)

    def own(self, n, v, d=0):
        """The stored value must not be (part of) the schema."""
        t = v["type"]
        if t in ("ObjectExpression", "ArrayExpression", "Literal", "TemplateLiteral"):
            return
        if t == "ConditionalExpression":
            self.own(n, v["consequent"], d)
            return self.own(n, v["alternate"], d) if not scalar_branch(v) else None
        if t == "CallExpression":
            c = text(v["callee"])
            if c in FRESH or c.endswith((".slice", ".map", ".concat", ".filter")) or c in ("Object.assign", "Array.from", "Object.fromEntries"):
                return
            f = self.fn_of(v["callee"])
            if f is not None and d < 4:
                rets = [f["body"]] if f["body"]["type"] != "BlockStatement" else [
                    r["argument"] for r in nodes(f["body"]) if r["type"] == "ReturnStatement" and r.get("argument")]
                for r in rets:
                    self.own(n, r, d + 1)
                return
        if t == "Identifier" and v["name"] in self.consts and d < 4:
            return self.own(n, self.consts[v["name"]], d + 1)
        if self.copied(v):
            return
        self.bad(n, "the nodes share the schema's default: %s is stored as it is" % (text(v) if not text(v).startswith("<") else "the value"))


    def copied(self, v, d=0):
        """Whether `v` is a part of a copy made for this node alone."""
        if d > 6:
            return False
        t = v["type"]
        if t == "MemberExpression":
            return self.copied(v["object"], d + 1)
        if t == "CallExpression":
            if text(v["callee"]) in FRESH:
                return any(a <= v["start"] < b for a, b in self.inside)
            if text(v["callee"]) in ("Object.entries", "Object.values") and v["arguments"]:
                return self.copied(v["arguments"][0], d + 1)
            if v["callee"]["type"] == "MemberExpression" and text(v["callee"]["property"]) == "filter":
                return self.copied(v["callee"]["object"], d + 1)
            return False
        if t == "Identifier":
            src = self.consts.get(v["name"]) or self.loopvars.get(v["name"])
            return src is not None and self.copied(src, d + 1)
        return False


def scalar_branch(v):
    """`x is an object ? copy : x`: the other branch holds no object."""
    t = v["test"]
    return t["type"] == "BinaryExpression" and t["left"]["type"] == "UnaryExpression" and t["left"]["operator"] == "typeof" \
        and t["right"].get("value") == "object" and t["operator"] == "==="


def names_of(p):
    if p["type"] == "Identifier":
        return {"": p["name"]}
    if p["type"] == "ArrayPattern":
        return {i: e["name"] for i, e in enumerate(p["elements"]) if e and e["type"] == "Identifier"}
    return {}


def check(p, rep):
    check_schema(rep)
    n = 0
    lib = os.path.join(REPO, "asg/lib")
    for name in sorted(os.listdir(lib)):
        if not name.endswith((".js", ".mjs")):
            continue
        r = subprocess.run(["node", os.path.join(VERIF, "js/ast.mjs"), os.path.join(lib, name)], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise FactsError("cannot read asg/lib/%s: %s" % (name, r.stderr.strip()[-300:]))
        kw = Keyword("asg/lib/" + name, json.loads(r.stdout), rep)
        hs = kw.handlers()
        kw.inside = [(f["start"], f["end"]) for f, _ in hs]
        for f, i in hs:
            if len(f["params"]) <= i:
                continue
            kw.body(f, set(), {f["params"][i].get("name")})
        n += kw.writes
    rep.floor("writes to a node", n, 1)
