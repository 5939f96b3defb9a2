"""Abstract schemas and documents, and their rendering to introspection JSON and GraphQL text.

The abstract forms are what the TLA+ specification reads (see spec/GraphQL.tla):
  schema : {"types": {name: {"k","f","poss","vals","doc"}}}
           k in OBJECT INTERFACE UNION ENUM SCALAR INPUT_OBJECT
           f: {field: {"w": wrappers outside-in over N(on-null)/L(ist), "n": named type,
                       "d": deprecated, "doc": None | text}}
  selection item:
           {"k":"f","name","key","sel","pos"} | {"k":"i","on","sel","pos"} | {"k":"s","frag","pos"}
"""
import random

BUILTIN = ["Boolean", "String", "Float", "Int", "ID"]


def T(spec):
    """'[[Int!]]!' -> (['N','L','L','N'], 'Int')"""
    spec = spec.strip()
    if spec.endswith("!"):
        w, n = T(spec[:-1])
        return ["N"] + w, n
    if spec.startswith("["):
        w, n = T(spec[1:-1])
        return ["L"] + w, n
    return [], spec


def show(w, n):
    if not w:
        return n
    if w[0] == "N":
        return show(w[1:], n) + "!"
    return "[" + show(w[1:], n) + "]"


def fld(spec, d=False, doc=None):
    w, n = T(spec)
    return {"w": w, "n": n, "d": d, "doc": doc}


def ty(k, f=None, poss=(), vals=(), doc=None):
    return {"k": k, "f": {a: (b if isinstance(b, dict) else fld(b)) for a, b in (f or {}).items()},
            "poss": list(poss), "vals": list(vals), "doc": doc}


def with_builtins(types):
    out = {b: ty("SCALAR") for b in BUILTIN}
    out.update(types)
    return {"types": out}


# ---------------------------------------------------------------- introspection
def _typeref(S, w, n):
    if not w:
        return {"kind": S["types"][n]["k"] if n in S["types"] else "OBJECT", "name": n, "ofType": None}
    return {"kind": "NON_NULL" if w[0] == "N" else "LIST", "name": None, "ofType": _typeref(S, w[1:], n)}


def introspection(S, rng=None, decorate=True):
    """Introspection result. rng shuffles orders and optional keys (all equivalent inputs)."""
    types = []
    for name, t in S["types"].items():
        j = {"kind": t["k"], "name": name, "description": t["doc"], "fields": None, "inputFields": None,
             "interfaces": None, "enumValues": None, "possibleTypes": None}
        if t["k"] in ("OBJECT", "INTERFACE"):
            j["fields"] = [{"name": fn, "description": f["doc"], "args": [],
                            "type": _typeref(S, f["w"], f["n"]), "isDeprecated": f["d"],
                            "deprecationReason": None} for fn, f in t["f"].items()]
            if t["k"] == "OBJECT":
                j["interfaces"] = [{"kind": "INTERFACE", "name": i, "ofType": None} for i, it in S["types"].items()
                                   if it["k"] == "INTERFACE" and name in it["poss"]]
        if t["k"] in ("INTERFACE", "UNION"):
            j["possibleTypes"] = [{"kind": "OBJECT", "name": p, "ofType": None} for p in t["poss"]]
        if t["k"] == "ENUM":
            j["enumValues"] = [{"name": v, "description": None, "isDeprecated": False, "deprecationReason": None}
                               for v in t["vals"]]
        if t["k"] == "INPUT_OBJECT":
            j["inputFields"] = [{"name": fn, "description": f["doc"], "type": _typeref(S, f["w"], f["n"]),
                                 "defaultValue": None, **({"isDeprecated": True} if f["d"] else {})}
                                for fn, f in t["f"].items()]
        types.append(j)
    if rng is not None:
        _detail(S, rng, types)
        rng.shuffle(types)
        for j in types:
            for k in list(j):
                if j[k] is None and rng.random() < .4:
                    del j[k]
            for k in ("fields", "inputFields", "enumValues", "possibleTypes"):
                if j.get(k):
                    rng.shuffle(j[k])
    root = {"queryType": {"name": "Query"}, "mutationType": {"name": "Mutation"} if "Mutation" in S["types"] else None,
            "subscriptionType": None, "types": types, "directives": []}
    return {"data": {"__schema": root}}


def literal(r, S, w, n):
    """A default value of the type, as introspection spells it."""
    if (not w or w[0] != "N") and r.random() < .3:
        return "null"
    if "L" in w:
        return r.choice(["[]", "[]", "[%s]" % literal(r, S, ["N"], n)] if w.count("L") == 1 else ["[]"])
    t = S["types"][n]
    if t["k"] == "ENUM":
        return r.choice(t["vals"]) if t["vals"] else "A"
    if t["k"] == "INPUT_OBJECT":
        return "{}"
    return {"Int": "10", "Float": "1.5", "Boolean": "false", "String": '"all \\"of\\" it"', "ID": '"1"'}.get(n, '"x"')


def _detail(S, r, types):
    """What introspection says about arguments, default values and reasons, none of which has a say in the outputs."""
    inputs = [n for n, t in S["types"].items() if t["k"] in ("SCALAR", "ENUM", "INPUT_OBJECT")]
    for j in types:
        for f in j["inputFields"] or []:
            t = S["types"][j["name"]]["f"][f["name"]]
            if r.random() < .3:
                f["defaultValue"] = literal(r, S, t["w"], t["n"])
            if t["d"] and r.random() < .5:
                f["deprecationReason"] = "No longer supported"
        for f in j["fields"] or []:
            for i in range(r.choice([0, 0, 0, 1, 2])):
                w, n = r.choice([[], ["N"], ["L"], ["N", "L", "N"]]), r.choice(inputs)
                f["args"].append({"name": "arg%d" % i, "description": None, "type": _typeref(S, w, n),
                                  "defaultValue": literal(r, S, w, n) if r.random() < .5 else None})
            if f["isDeprecated"] and r.random() < .6:
                f["deprecationReason"] = r.choice(["No longer supported", "", "use */ another", "two\nlines"])
        for v in j["enumValues"] or []:
            if r.random() < .2:
                v["isDeprecated"], v["deprecationReason"] = True, r.choice(["No longer supported", None])
            if r.random() < .2:
                v["description"] = r.choice(["A value.", "*/", ""])
        if j["kind"] == "INTERFACE" and r.random() < .5:
            j["interfaces"] = []
        if j["kind"] == "SCALAR" and r.random() < .2:
            j["specifiedByURL"] = r.choice([None, "https://example.com/x"])


# ---------------------------------------------------------------- rendering with positions
class Printer:
    """Writes GraphQL text, recording the (line, column) of each item, counted as the
    specification counts them: 1-based, one column per character."""

    def __init__(self, rng=None, header=()):
        self.rng = rng
        self.buf = []
        self.line = 1
        self.col = 1
        for h in header:
            self.raw(h + "\n")

    def raw(self, s):
        self.buf.append(s)
        for ch in s:
            if ch == "\n":
                self.line += 1
                self.col = 1
            else:
                self.col += 1

    def gap(self, must=True):
        r = self.rng
        if r is None:
            self.raw(" ")
            return
        x = r.random()
        if x < .55:
            self.raw(" ")
        elif x < .7:
            self.raw("\n" + " " * r.randrange(6))
        elif x < .8:
            self.raw("  ")
        elif x < .88:
            self.raw(" , ")
        elif x < .92:
            self.raw(r.choice([" # note { } \"\n ", " # n\u00f6te \u2013 \u4e2d\n", " " * r.randrange(60, 160),
                               " # " + "\u00e9" * r.randrange(30, 90) + "\n", " # " + "long " * 30 + "\n"]))
        elif x < .94:
            self.raw("\n#import \"nowhere.graphql\"\n")
        else:
            self.raw("\n\n" + " " * r.randrange(12))

    def here(self):
        return [self.line, self.col]

    def sel(self, items):
        self.raw("{")
        for it in items:
            self.gap()
            it["pos"] = self.here()
            if it["k"] == "f":
                if it["key"] != it["name"]:
                    self.raw(it["key"] + ": " + it["name"])
                else:
                    self.raw(it["name"])
                if it.get("args"):
                    self.raw(it["args"])
                if it["sel"]:
                    self.gap()
                    self.sel(it["sel"])
            elif it["k"] == "i":
                # the parser's position of an inline fragment is the token after its dots
                self.raw("... ")
                it["pos"] = self.here()
                if it["on"]:
                    self.raw("on " + it["on"])
                if it["on"]:
                    self.raw(" ")
                self.sel(it["sel"])
            else:
                self.raw("...")
                it["pos"] = self.here()
                self.raw(it["frag"])
        self.gap()
        self.raw("}")

    def text(self):
        return "".join(self.buf)


def render(doc, rng=None):
    """doc: {"st","header":[lines],"def":{...}}; fills positions; returns text."""
    if doc.get("text") is not None:
        return doc["text"]
    p = Printer(rng, doc["header_lines"])
    d = doc["def"]
    d["pos"] = p.here()
    if d["op"] == "fragment":
        p.raw("fragment %s on %s " % (d["name"], d["on"]))
    elif d["op"] == "anon":
        pass
    else:
        p.raw(d["op"])
        if d["name"]:
            p.raw(" " + d["name"])
        if d["vars"]:
            p.raw("(")
            for i, v in enumerate(d["vars"]):
                if i:
                    p.raw(", ")
                v["pos"] = p.here()
                p.raw("$%s: %s" % (v["name"], show(v["w"], v["n"])))
                if v.get("default"):
                    p.raw(" = " + v["default"])
            p.raw(")")
        p.raw(" ")
    p.sel(d["sel"])
    p.raw("\n")
    return p.text()
