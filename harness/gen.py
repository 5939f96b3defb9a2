"""Random schemas and documents. Everything is drawn from the given rng."""
import copy

from gql import ty, with_builtins, literal, BUILTIN

FIELDS = ["id", "name", "type", "kids", "owner", "title", "class", "size", "age", "tags", "next", "best", "home", "kind",
          "default", "x", "y", "list", "one", "two", "_id", "createdAt", "URL", "x2", "tagsOfAllTheThingsThatWereEverTaggedByAnybody"]
OBJ = ["Cat", "Dog", "Bird", "Fish", "House", "User", "Zoo"]
IFACE = ["Animal", "Node", "Named"]
UNI = ["Pet", "Thing"]
ENUM = ["Color", "Mood", "Level"]
INP = ["CatInput", "Filter", "Range", "Where"]
SCAL = ["Date", "JSON", "UUID", "Id", "DateTime", "BigInt"]
VALS = ["RED", "GREEN", "BLUE", "LOW", "HIGH", "A", "B_C", "D2", "red", "Red", "_", "_X", "class", "default", "constructor", "A1", "A10", "A9",
        "A_VERY_LONG_NAME_OF_ONE_OF_THE_VALUES_WHICH_THE_SCHEMA_OF_SOME_LARGE_COMPANY_HAS"]
STYLES = ["_%s", "_%s", "_%s", "%s__v1", "%s_type", "%sEnum", "%sInput", "%sType", "Enum%s", "I%s", "Abstract%s", "%s2", "%sX", "%sOfTheCompanyThatMadeTheSchemaWithTheLongestNames", "X_%s_1"]
WORDS = ["The name.", "How many?", "See also the \"other\" field", "a < b && c > d", "uses `code`", "100% sure", "one, two; three",
         "${x}", "path/to/file", "// not a comment", "export type X = {};", "'quoted'", "deprecated: use `id`", "# a heading", "#1 of all", "- an item", "> quoted", "@see another", "<b>bold</b>", "[a](b)", "{x: 1}", "\u00e9t\u00e9, \u4e2d\u6587 and \U0001f600", "Deprecated since 2.0", "TODO", "is @deprecated upstream", "* starred", "back\\slash"]
EVIL = ["*/", "/*", "**/", "/**", "*/*", "/*/", "**//", "*//*/", "/* */", "* /", "**", "//", "*", "/", "*/ export const x = 1; /*"]


def wrappers(r, deep=4, simple=.55):
    x = r.random()
    if x < simple:
        return [[], ["N"], ["L"], ["N", "L"], ["L", "N"], ["N", "L", "N"]][r.randrange(6)]
    w = []
    for _ in range(r.randrange(1, deep + 1)):
        if r.random() < .5:
            w.append("N")
        w.append("L")
    if r.random() < .5:
        w.append("N")
    return w


def tighten(r, w):
    """A covariant variant: some levels become non-null."""
    out = []
    prev = None
    for i, x in enumerate(w):
        if x == "L" and prev != "N" and r.random() < .3:
            out.append("N")
        out.append(x)
        prev = x
    if prev != "N" and r.random() < .3:
        out.append("N")
    return out


def doc_text(r, evil=0.0):
    x = r.random()
    if x < .5 and not (evil and r.random() < evil):
        return None
    lines = []
    for _ in range(r.choice([1, 1, 1, 1, 2, 2, 3, 3, 4, 5, 8])):
        parts = [r.choice(WORDS[:-3] if not evil else WORDS)]
        if evil and r.random() < evil:
            for _ in range(r.randrange(1, 4)):
                parts.insert(r.randrange(len(parts) + 1), r.choice(EVIL))
        lines.append((r.choice(["", " "]) if evil else " ").join(parts))
    if r.random() < .1:
        return ""
    t = r.choice(["\n", "\n", "\n\n", "\n  ", " \n"]).join(lines)
    if r.random() < .2:
        t = "\n" + t + "\n"
    return t


def field(r, w, n, evil, depr):
    return {"w": w, "n": n, "d": r.random() < depr, "doc": doc_text(r, evil)}


def schema(r, evil=0.0, depr=.15, deep=3, inputs=None, big=False, docs=True, prefix=""):
    """prefix: put in front of type names, to tell several schemas apart."""
    nm = lambda s: prefix + s
    objs = [nm(o) for o in r.sample(OBJ, r.randrange(2, 7 if big else 6))]
    ifaces = [nm(o) for o in r.sample(IFACE, r.randrange(0, 4 if big else 3))]
    unis = [nm(o) for o in r.sample(UNI, r.randrange(0, 3))]
    enums = [nm(o) for o in r.sample(ENUM, r.randrange(0, 3))]
    inps = [nm(o) for o in r.sample(INP, r.randrange(0, 4) if inputs is None else inputs)]
    scals = [nm(o) for o in r.sample(SCAL, r.randrange(0, 3))]
    leaf = BUILTIN + enums + scals
    comp = objs + ifaces + unis
    T = {}

    def rand_field(name):
        if r.random() < .55:
            n = r.choice(leaf)
        else:
            n = r.choice(comp)
        f = field(r, wrappers(r, deep), n, evil, depr)
        if not docs:
            f["doc"] = None
        return f

    impl = {i: [] for i in ifaces}
    for o in objs:
        T[o] = ty("OBJECT", {})
    for i in ifaces:
        f = {x: rand_field(x) for x in r.sample(FIELDS, r.randrange(1, 5))}
        T[i] = ty("INTERFACE", f, doc=doc_text(r, evil))
        members = r.sample(objs, r.randrange(1, len(objs) + 1))
        for o in members:
            clash = any(x in T[o]["f"] for x in f)
            if clash and impl[i]:
                continue
            if clash:
                # keep only the interface's own version
                for x in f:
                    T[o]["f"].pop(x, None)
                for j in ifaces:
                    if o in impl.get(j, []) and j != i:
                        impl[j].remove(o)
            impl[i].append(o)
            for x, fd in f.items():
                g = copy.deepcopy(fd)
                if r.random() < .4:
                    g["w"] = tighten(r, g["w"])
                if r.random() < .3:
                    g["doc"] = doc_text(r, evil) if docs else None
                if r.random() < .2:
                    g["d"] = not g["d"]
                T[o]["f"][x] = g
    for i in list(ifaces):
        if not impl[i]:
            del T[i]
            ifaces.remove(i)
            for t in T.values():
                for x in list(t["f"]):
                    if t["f"][x]["n"] == i:
                        t["f"][x]["n"] = r.choice(objs)
            comp.remove(i)
        else:
            T[i]["poss"] = sorted(impl[i]) if r.random() < .5 else r.sample(impl[i], len(impl[i]))
    for u in unis:
        T[u] = ty("UNION", {}, poss=r.sample(objs, r.randrange(1, len(objs) + 1)), doc=doc_text(r, evil))
    # an interface's object type may be narrowed by members
    for i in ifaces:
        for x, fd in T[i]["f"].items():
            if fd["n"] in ifaces or fd["n"] in unis:
                for o in impl[i]:
                    if r.random() < .2 and T[o]["f"][x]["n"] == fd["n"]:
                        poss = T[fd["n"]]["poss"] if fd["n"] in T else None
                        if poss:
                            T[o]["f"][x]["n"] = r.choice(poss)
    for o in objs:
        for x in r.sample(FIELDS, r.randrange(1, 6)):
            if x not in T[o]["f"]:
                T[o]["f"][x] = rand_field(x)
    # every object keeps to what its interfaces declare
    for i in ifaces:
        for x, fd in T[i]["f"].items():
            allowed = {fd["n"]}
            if fd["n"] in ifaces or fd["n"] in unis:
                allowed |= set(T[fd["n"]]["poss"])
            for o in impl[i]:
                if T[o]["f"][x]["n"] not in allowed:
                    T[o]["f"][x]["n"] = fd["n"]
    for e in enums:
        T[e] = ty("ENUM", {}, vals=r.sample(VALS, r.choice([1, 2, 3, 4, 7, len(VALS), len(VALS)])), doc=doc_text(r, evil))
    for s in scals:
        T[s] = ty("SCALAR")
    for n in inps:
        f = {}
        for x in r.sample(FIELDS, r.randrange(1, 5)):
            k = r.choice(leaf + inps * 2)
            f[x] = field(r, wrappers(r, deep), k, evil, depr / 2)
            if not docs:
                f[x]["doc"] = None
        T[n] = ty("INPUT_OBJECT", f)
    qf = {}
    for x in r.sample(FIELDS, r.randrange(3, 7)):
        n = r.choice(comp) if r.random() < .75 else r.choice(leaf)
        qf[x] = field(r, wrappers(r, deep), n, evil, depr)
        if not docs:
            qf[x]["doc"] = None
    T["Query"] = ty("OBJECT", qf)
    if r.random() < .7:
        T["Mutation"] = ty("OBJECT", {x: rand_field(x) for x in r.sample(FIELDS, r.randrange(1, 4))})
    if r.random() < .4:
        T = renamed(r, T)
    return with_builtins(T)


def renamed(r, T):
    """The same schema with names of other shapes for some of its types."""
    to = {n: r.choice(STYLES) % n if n not in ("Query", "Mutation") and r.random() < .5 else n for n in T}
    for t in T.values():
        for f in t["f"].values():
            f["n"] = to.get(f["n"], f["n"])
        if t["poss"]:
            t["poss"] = [to[x] for x in t["poss"]]
    return {to[n]: t for n, t in T.items()}


# ------------------------------------------------------------------ documents
def poss(S, t):
    d = S["types"][t]
    return [t] if d["k"] == "OBJECT" else d["poss"]


ARGS = ["(first: 10)", "(a: \"x { } # y\", b: true)", "(where: {k: [1, 2], e: RED})", "(id: $id)", "(n: null, f: 1.5)",
        "(x:$a\n y : 3)", "(s: \"" + "\u00e9\u00e8\u4e2d" * 25 + "\")", "(s: \"\u00fc\")", "(s: \"" + "abcde " * 25 + "\")"]


class Keys:
    """Each response key stands for one field name in a document and the fragments it uses."""

    def __init__(self, r):
        self.r = r
        self.key = {}
        self.args = {}

    def arg(self, key, chance):
        if key not in self.args:
            self.args[key] = self.r.choice(ARGS) if self.r.random() < chance else ""
        return self.args[key]

    def pick(self, name, chance=.25):
        if self.r.random() < chance:
            k = self.r.choice(["a%d" % i for i in range(6)] + ["A%d" % i for i in range(3)] + [self.r.choice(FIELDS), "type", "Z"])
        else:
            k = name
        if self.key.setdefault(k, name) != name:
            k = name
            if self.key.setdefault(k, name) != name:
                return None
        return k


def selection(r, S, t, keys, frags, depth, budget=6, args=.1, typename=.3, loose=.05):
    """A random selection on type t. frags: {name: type} that may be spread."""
    d = S["types"][t]
    out = []
    n = r.randrange(1, budget + 1)
    comp = [x for x, v in S["types"].items() if v["k"] in ("OBJECT", "INTERFACE", "UNION")]
    mine = set(poss(S, t))
    for _ in range(n):
        x = r.random()
        fields = list(d["f"])
        if x < .62 and fields:
            fn = r.choice(fields)
            f = d["f"][fn]
            k = keys.pick(fn)
            if k is None:
                continue
            it = {"k": "f", "name": fn, "key": k, "sel": [], "args": keys.arg(k, args)}
            if S["types"][f["n"]]["k"] in ("OBJECT", "INTERFACE", "UNION"):
                if depth <= 0:
                    it["sel"] = [{"k": "f", "name": "__typename", "key": "__typename", "sel": [], "args": ""}]
                    if S["types"][f["n"]]["f"] and r.random() < .5:
                        leafs = [a for a, b in S["types"][f["n"]]["f"].items()
                                 if S["types"][b["n"]]["k"] in ("SCALAR", "ENUM") and keys.key.get(a, a) == a]
                        if leafs:
                            a = r.choice(leafs)
                            keys.key[a] = a
                            it["sel"] = [{"k": "f", "name": a, "key": a, "sel": [], "args": ""}]
                else:
                    it["sel"] = selection(r, S, f["n"], keys, frags, depth - 1, max(1, budget - 1), args, typename, loose)
            out.append(it)
            if r.random() < .08:
                out.append(copy.deepcopy(it))
        elif x < .62 + typename * .25 or not comp:
            k = keys.pick("__typename", .4)
            if k:
                out.append({"k": "f", "name": "__typename", "key": k, "sel": [], "args": ""})
        elif x < .9 or not frags:
            if depth <= 0:
                continue
            near = [c for c in comp if mine & set(poss(S, c))]
            c = r.choice(comp) if r.random() < loose else r.choice(near)
            out.append({"k": "i", "on": c, "sel": selection(r, S, c, keys, frags, depth - 1, max(1, budget - 2), args, typename, loose)})
        else:
            near = [f for f, c in frags.items() if mine & set(poss(S, c))]
            if near and r.random() > loose:
                out.append({"k": "s", "frag": r.choice(near)})
            elif r.random() < loose:
                out.append({"k": "s", "frag": r.choice(list(frags))})
    if not out:
        out = [{"k": "f", "name": "__typename", "key": "__typename", "sel": [], "args": ""}]
        if keys.key.setdefault("__typename", "__typename") != "__typename":
            raise ValueError
    return out


def variables(r, S, n=None, bad=0.0):
    T = S["types"]
    ok = [x for x, v in T.items() if v["k"] in ("SCALAR", "ENUM", "INPUT_OBJECT")]
    out = []
    names = r.sample(["id", "ids", "Id", "where", "whereNot", "a", "A", "zed", "name", "limit", "B", "first", "firstName", "Zoo", "input", "inputs", "_v", "x1", "x10", "x2"], r.randrange(0, 5) if n is None else n)
    for x in names:
        w = [[], ["N"], ["L"], ["N", "L"], ["L", "N"], ["N", "L", "N"]][r.randrange(6)]
        t = r.choice(ok)
        if r.random() < bad:
            y = r.random()
            if y < .4:
                t = r.choice(["Nope", "string", "Int32"])
            elif y < .7:
                t = r.choice([a for a, v in T.items() if v["k"] in ("OBJECT", "INTERFACE", "UNION")])
            else:
                w = r.choice([["L", "L"], ["N", "L", "L"], ["L", "N", "L"], ["N", "L", "N", "L", "N"], ["L", "L", "L"]])
        out.append({"name": x, "w": w, "n": t, "pos": [0, 0]})
        if r.random() < .25:
            out[-1]["default"] = literal(r, S, w, t) if t in ok else "null"
    return out


def operation(r, S, name, frags, depth=3, budget=5, keys=None, vars=None, op=None):
    T = S["types"]
    ops = ["query", "query", "query", "subscription"] + (["mutation"] if "Mutation" in T else [])
    op = op or r.choice(ops)
    if op == "mutation" and "Mutation" not in T:
        op = "query"
    keys = keys or Keys(r)
    if r.random() < .2:
        name += r.choice(["Query", "Mutation", "Subscription", "Fragment", "Variables", "Data", "2"])
    d = {"op": op, "name": name if r.random() > .06 else "", "on": "",
         "vars": variables(r, S) if vars is None else vars, "sel": []}
    d["sel"] = selection(r, S, "Mutation" if op == "mutation" else "Query", keys, frags, depth, budget)
    return d


def fragment(r, S, name, frags, depth=2, budget=4, keys=None, on=None):
    T = S["types"]
    comp = [x for x, v in T.items() if v["k"] in ("OBJECT", "INTERFACE", "UNION") and x not in ("Query", "Mutation")]
    if r.random() < .05:
        comp.append("Query")
    on = on or r.choice(comp)
    keys = keys or Keys(r)
    return {"op": "fragment", "name": name, "on": on, "vars": [],
            "sel": selection(r, S, on, keys, frags, depth, budget)}
