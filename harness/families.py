"""Families of histories. Each takes a fresh scenario, an rng and its seed."""
import copy
import json
import os
import posixpath
import tempfile

import gen
import gql
import run as R
import scen

MAIN = ["", "root"]


def _schema_path(root):
    return posixpath.join(root, "schema.json") if root else "schema.json"


def _under(root, p):
    return posixpath.join(root, p) if root else p


# ------------------------------------------------------------------ valid documents
def world(sc, r, seed):
    """Valid fragments and operations over a random schema."""
    S = gen.schema(r)
    root = r.choice(MAIN)
    c = scen.rand_cli(r, root)
    sc.put_schema(_schema_path(root), S, r)
    scen.world(sc, r, S, c)
    sc.run(c)


def abstract(sc, r, seed):
    """Interfaces and unions with many members, selections that tell them apart or not."""
    S = gen.schema(r, big=True, deep=2)
    root = r.choice(MAIN)
    c = scen.rand_cli(r, root)
    sc.put_schema(_schema_path(root), S, r)
    T = S["types"]
    comp = [n for n, t in T.items() if t["k"] in ("INTERFACE", "UNION")]
    keys = gen.Keys(r)
    frags, where = {}, {}
    for i in range(r.randrange(0, 4)):
        d = gen.fragment(r, S, "F%d" % i, {}, 1, 4, keys, on=r.choice(comp) if comp and r.random() < .5 else None)
        f = _under(root, "F%d.graphql" % i)
        frags["F%d" % i] = d["on"]
        where["F%d" % i] = f
        sc.put_doc(f, d, scen.header(r, []), r)
    for i in range(8):
        if comp and r.random() < .7:
            on = r.choice(comp)
            d = {"op": "fragment", "name": "Main%d" % i, "on": on, "vars": [],
                 "sel": alt_selection(r, S, on, keys, frags, 3)}
        else:
            d = gen.operation(r, S, "Op%d" % i, frags, 3, 5, keys, vars=[])
        f = _under(root, "d%d.graphql" % i)
        h = ['#import "%s"' % scen.import_path(r, root, None, f, where[n]) for n in sorted(scen.spreads(d["sel"]))]
        sc.put_doc(f, d, h, r)
    sc.run(c)


def _leaf(key, name="__typename"):
    return {"k": "f", "name": name, "key": key, "sel": [], "args": ""}


def alt_selection(r, S, t, keys, frags, depth):
    """Selections on an abstract type: some common part, parts for some members, in any order."""
    T = S["types"]
    out = []
    members = list(gen.poss(S, t))
    r.shuffle(members)
    if r.random() < .8:
        k = keys.pick("__typename", .2)
        if k:
            out.append(_leaf(k))
    if T[t]["f"] and r.random() < .7:
        out += gen.selection(r, S, t, keys, frags, depth - 1, 2)
    for m in members[:r.randrange(0, len(members) + 1)]:
        sel = gen.selection(r, S, m, keys, frags, depth - 1, r.choice([1, 2, 3]))
        out.append({"k": "i", "on": m, "sel": sel})
        if r.random() < .3:
            out.append({"k": "i", "on": m, "sel": gen.selection(r, S, m, keys, frags, 1, 2)})
        # the same selection on another member, so that the two may share
        others = [o for o in members if o != m and _fits(S, o, sel)]
        if others and r.random() < .5:
            out.append({"k": "i", "on": r.choice(others), "sel": copy.deepcopy(sel)})
    for u in [n for n, x in T.items() if x["k"] in ("INTERFACE", "UNION") and set(x["poss"]) & set(members)]:
        if r.random() < .3:
            out.append({"k": "i", "on": u, "sel": gen.selection(r, S, u, keys, frags, depth - 1, 2)})
    r.shuffle(out)
    if not out:
        if keys.key.setdefault("__typename", "__typename") == "__typename":
            out = [_leaf("__typename")]
        else:
            out = gen.selection(r, S, t, keys, frags, 1, 3)
    return out


def _fits(S, t, sel):
    T = S["types"]
    for it in sel:
        if it["k"] == "f" and it["name"] != "__typename":
            f = T[t]["f"].get(it["name"])
            if not f:
                return False
            comp = T[f["n"]]["k"] in ("OBJECT", "INTERFACE", "UNION")
            if comp != bool(it["sel"]) or (comp and not _fits(S, f["n"], it["sel"])):
                return False
    return True


NEAR = [["ID", "String"], ["Int", "Float"], ["Date", "UUID", "JSON"], ["Color", "Mood", "Level"], ["String", "Int"], ["Boolean", "String", "Int"],
        ["Color", "String", "Date"], ["Box", "Bin"], ["Box", "Held"], ["Box", "Color", "ID"]]


def twins(sc, r, seed):
    """Members of an abstract type that select like and unlike fields under the same response keys."""
    members = r.sample(["Cat", "Dog", "Egg", "Ant", "Bee", "Cow", "Emu", "Fox", "Gnu", "Hen", "cat"], r.choice([2, 3, 3, 4, 5, 7, 9, 11]))
    names = r.sample(["id", "Id", "name", "Name", "a", "A", "b", "size", "kind"], r.choice([2, 3, 5]))
    T = {}
    base = {}
    for n in names:
        base[n] = (r.choice(NEAR), gen.wrappers(r, 3))

    def flip(w):
        w = list(w)
        at = r.choice([0] + [i + 1 for i, x in enumerate(w) if x == "L"])
        if at < len(w) and w[at] == "N":
            del w[at]
        else:
            w.insert(at, "N")
        return w
    for m in members:
        f = {}
        for n in names:
            near, w = base[n]
            t = near[0] if r.random() < .8 else r.choice(near)
            f[n] = gen.field(r, w if r.random() < .85 else flip(w), t, 0, .02)
            f[n]["doc"] = None
        T[m] = gql.ty("OBJECT", f)
    T["Box"] = gql.ty("OBJECT", {"x": gql.fld("Int"), "y": gql.fld("Color")})
    T["Bin"] = gql.ty("OBJECT", {"x": gql.fld("Int"), "y": gql.fld("Mood")})
    T["Held"] = gql.ty("INTERFACE", {"x": gql.fld("Int")}, poss=["Box", "Bin"])
    for e in ("Color", "Mood", "Level"):
        T[e] = gql.ty("ENUM", {}, vals=["RED", "BLUE"])
    for x in ("Date", "UUID", "JSON"):
        T[x] = gql.ty("SCALAR")
    T["Pet"] = gql.ty("UNION", {}, poss=r.sample(members, len(members)))
    common = [n for n in names if len({(f["n"], tuple(f["w"])) for f in (T[m]["f"][n] for m in members)}) == 1]
    abstract = ["Pet"]
    if common:
        T["Node"] = gql.ty("INTERFACE", {n: copy.deepcopy(T[members[0]]["f"][n]) for n in common}, poss=sorted(members))
        abstract.append("Node")
    T["Query"] = gql.ty("OBJECT", {"pet": gql.fld("Pet"), "pets": gql.fld("[Pet!]!")})
    S = gql.with_builtins(T)
    sc.put_schema("schema.json", S, r)

    subs = [[_leaf("x", "x")], [_leaf("x", "x"), _leaf("__typename")], [_leaf("z", "x")], [_leaf("x", "y")]]

    def item(m, key, n, sub):
        if n == "__typename":
            return _leaf(key)
        t = T[m]["f"][n]["n"]
        sub = [] if t not in ("Box", "Bin", "Held") else subs[0] if t == "Held" else copy.deepcopy(sub)
        return {"k": "f", "name": n, "key": key, "sel": sub, "args": ""}
    for i in range(10):
        plan = {k: (r.choice(names), r.choice(subs)) for k in r.sample(["k", "K", "kk", "id", "Id", "ID", "iD", "name"], r.choice([1, 2, 2, 3]))}
        strict = r.random() < .3
        sel = []
        for m in r.sample(members, r.choice([len(members), len(members), max(1, len(members) - 1), 1])):
            inner = []
            for k, (n, sub) in plan.items():
                if not strict and r.random() < .12:
                    n = r.choice(names + ["__typename"])
                if not strict and r.random() < .08:
                    sub = r.choice(subs)
                if strict or r.random() > .04:
                    inner.append(item(m, k, n, sub))
            if r.random() < .2:
                r.shuffle(inner)
            sel.append({"k": "i", "on": m, "sel": inner or [_leaf("__typename")]})
        if r.random() < .6:
            sel.insert(r.choice([0, len(sel)]), _leaf("__typename"))
        if r.random() < .5:
            d = {"op": "fragment", "name": "Main%d" % i, "on": r.choice(abstract), "vars": [], "sel": sel}
        else:
            d = {"op": "query", "name": "Op%d" % i, "on": "", "vars": [], "sel":
                 [{"k": "f", "name": r.choice(["pet", "pets"]), "key": "p", "sel": sel, "args": ""}]}
        sc.put_doc("d%d.graphql" % i, d, scen.header(r, []), r)
    sc.run(scen.rand_cli(r, ""))


def wrappers(sc, r, seed):
    """Deep list and non-null wrappers in output fields, input fields and variables."""
    S = gen.schema(r, deep=6, inputs=3)
    root = r.choice(MAIN)
    c = scen.rand_cli(r, root)
    sc.put_schema(_schema_path(root), S, r)
    T = S["types"]
    for i in range(6):
        d = gen.operation(r, S, "Q%d" % i, {}, 2, 6, vars=gen.variables(r, S, r.randrange(0, 8)))
        sc.put_doc(_under(root, "q%d.graphql" % i), d, [], r)
    inp = [n for n, t in T.items() if t["k"] in ("INPUT_OBJECT", "ENUM")]
    if inp:
        d = {"op": "query", "name": "All", "on": "", "vars": [{"name": "v%d" % i, "w": r.choice([[], ["N"], ["L"], ["N", "L", "N"]]),
             "n": n, "pos": [0, 0]} for i, n in enumerate(inp)], "sel": [_leaf("__typename")]}
        sc.put_doc(_under(root, "all.graphql"), d, [], r)
    sc.run(c)


def evil(sc, r, seed):
    """Descriptions full of comment delimiters; then the same schema without them."""
    S = gen.schema(r, evil=.6, inputs=2)
    root = r.choice(MAIN)
    c = scen.rand_cli(r, root)
    sc.put_schema(_schema_path(root), S, r)
    scen.world(sc, r, S, c, nfrag=2, ndoc=6)
    T = S["types"]
    glob = [n for n, t in T.items() if t["k"] in ("INPUT_OBJECT", "ENUM")]
    d = {"op": "query", "name": "All", "on": "", "vars": [{"name": "v%d" % i, "w": [], "n": n, "pos": [0, 0]}
         for i, n in enumerate(glob)], "sel": [_leaf("__typename")]}
    sc.put_doc(_under(root, "all.graphql"), d, [], r)
    sc.run(c)
    # other descriptions, or none, give the same types
    if r.random() < .5:
        sc.put_schema(_schema_path(root), R.undocumented(S), r)
    else:
        S2 = copy.deepcopy(S)
        for t in S2["types"].values():
            t["doc"] = gen.doc_text(r, .8)
            for f in t["f"].values():
                f["doc"] = gen.doc_text(r, .8)
        sc.put_schema(_schema_path(root), S2, r)
    sc.run(c)


def inputs(sc, r, seed):
    """Graphs of input objects, used directly, through chains, or only by documents that fail."""
    S = gen.schema(r, inputs=4 if r.random() < .7 else 2, deep=2)
    root = r.choice(MAIN)
    c = scen.rand_cli(r, root)
    sc.put_schema(_schema_path(root), S, r)
    for i in range(r.randrange(1, 5)):
        bad = r.random() < .3
        d = gen.operation(r, S, "Q%d" % i, {}, 1, 3, vars=gen.variables(r, S, r.randrange(0, 3)))
        if bad:
            d["sel"].append(_leaf("nope", "nope"))
        sc.put_doc(_under(root, "q%d.graphql" % i), d, [], r)
    if r.random() < .3:
        sc.put_other(_under(root, "graphql-globals.ts"), "export type Old = 1;\n")
    sc.run(c)


def variables(sc, r, seed):
    """Variables, some of which cannot be typed."""
    S = gen.schema(r, inputs=2)
    root = r.choice(MAIN)
    c = scen.rand_cli(r, root)
    sc.put_schema(_schema_path(root), S, r)
    for i in range(8):
        d = gen.operation(r, S, "Q%d" % i, {}, 1, 2,
                          vars=gen.variables(r, S, r.randrange(0, 7), bad=.25 if r.random() < .5 else 0))
        sc.put_doc(_under(root, "q%d.graphql" % i), d, [], r)
    sc.run(c)


def deprecations(sc, r, seed):
    """Deprecated fields and narrowing conditions in documents and the fragments they import."""
    S = gen.schema(r, depr=.5)
    root = r.choice(MAIN)
    c = scen.rand_cli(r, root)
    c["depr"] = r.random() < .7
    sc.put_schema(_schema_path(root), S, r)
    T = S["types"]
    keys = gen.Keys(r)
    frags, where = {}, {}
    for i in range(3):
        d = gen.fragment(r, S, "F%d" % i, {}, 2, 4, keys)
        f = _under(root, "F%d.graphql" % i)
        frags["F%d" % i] = d["on"]
        where["F%d" % i] = f
        sc.put_doc(f, d, [], r)
    for i in range(6):
        op = "mutation" if "Mutation" in T and r.random() < .3 else "query"
        d = {"op": op, "name": "Q%d" % i, "on": "", "vars": [],
             "sel": gen.selection(r, S, op.capitalize(), keys, frags, 3, 5, loose=.5)}
        f = _under(root, "q%d.graphql" % i)
        h = scen.header(r, [scen.import_path(r, root, None, f, where[n]) for n in sorted(scen.spreads(d["sel"]))])
        sc.put_doc(f, d, h, r)
    sc.run(c)
    if r.random() < .5:
        # warnings change no byte: the specification compares with the outputs of the first run
        c2 = dict(c)
        c2["depr"] = not c["depr"]
        sc.run(c2)


# ------------------------------------------------------------------ invalid documents
def spoil(r, S, d, frags, foreign, n):
    """Puts n mistakes into a definition."""
    T = S["types"]
    root = d["on"] if d["op"] == "fragment" else ("Mutation" if d["op"] == "mutation" else "Query")
    done = []
    if root not in T or T[root]["k"] not in ("OBJECT", "INTERFACE", "UNION"):
        return done
    for _ in range(n):
        spots = []

        def walk(sel, t, act):
            spots.append((sel, t))
            for it in sel:
                if it["k"] == "f" and it["sel"]:
                    f = T[t]["f"].get(it["name"]) if t in T else None
                    if f:
                        walk(it["sel"], f["n"], act)
                elif it["k"] == "i" and it["on"] in T and T[it["on"]]["k"] in ("OBJECT", "INTERFACE", "UNION"):
                    walk(it["sel"], it["on"], act)
        walk(d["sel"], root, None)
        sel, t = r.choice(spots)
        kind = r.choice(["unknown", "unknown", "missing", "wrong", "nocond", "cond", "condkind", "spread", "foreign", "self"])
        at = r.randrange(len(sel) + 1)
        fs = T[t]["f"]
        k = "zz%d" % r.randrange(1000)
        if kind == "unknown":
            it = {"k": "f", "name": "nope%d" % r.randrange(9), "key": k, "sel": [_leaf("a")] if r.random() < .3 else [], "args": ""}
        elif kind == "missing":
            c = [x for x, f in fs.items() if T[f["n"]]["k"] in ("OBJECT", "INTERFACE", "UNION")]
            if not c:
                continue
            it = {"k": "f", "name": r.choice(c), "key": k, "sel": [], "args": ""}
        elif kind == "wrong":
            c = [x for x, f in fs.items() if T[f["n"]]["k"] in ("SCALAR", "ENUM")] + ["__typename"]
            it = {"k": "f", "name": r.choice(c), "key": k, "sel": [_leaf("a", "nope"), _leaf("b", "nope")][:r.choice([1, 2])], "args": ""}
        elif kind == "nocond":
            it = {"k": "i", "on": "", "sel": [_leaf("a%d" % r.randrange(9), r.choice(list(fs) + ["__typename"]))]}
        elif kind == "cond":
            it = {"k": "i", "on": r.choice(["Nope", "cat", "Ghost"]), "sel": [_leaf("a")]}
        elif kind == "condkind":
            c = [x for x, v in T.items() if v["k"] in ("SCALAR", "ENUM", "INPUT_OBJECT")]
            it = {"k": "i", "on": r.choice(c), "sel": [_leaf("a")]}
        elif kind == "spread":
            it = {"k": "s", "frag": r.choice(["Missing", "nofrag", "Part"])}
        elif kind == "foreign":
            c = [x for x in foreign]
            if not c:
                continue
            it = {"k": "s", "frag": r.choice(c)}
        else:
            if d["op"] != "fragment":
                continue
            it = {"k": "s", "frag": d["name"]}
        sel.insert(at, it)
        done.append(kind)
    return done


def mistakes(sc, r, seed):
    """Documents with several independent mistakes among valid ones."""
    S = gen.schema(r, inputs=1)
    root = r.choice(MAIN)
    c = scen.rand_cli(r, root)
    sc.put_schema(_schema_path(root), S, r)
    keys = gen.Keys(r)
    frags, where, defs = {}, {}, {}
    for i in range(3):
        d = gen.fragment(r, S, "F%d" % i, {}, 2, 3, keys)
        frags["F%d" % i] = d["on"]
        where["F%d" % i] = _under(root, "F%d.graphql" % i)
        if r.random() < .3:
            spoil(r, S, d, {}, [], r.choice([1, 2]))
        sc.put_doc(where["F%d" % i], d, [], r)
    for i in range(7):
        d = gen.operation(r, S, "Q%d" % i, frags, 3, 4, keys, vars=gen.variables(r, S, r.choice([0, 0, 2]), bad=.15))
        if r.random() < .15:
            d = gen.fragment(r, S, "G%d" % i, frags, 2, 4, keys)
            if r.random() < .2:
                d["on"] = r.choice(["Nope", "Color", "Int", "CatInput", "Filter"])
        need = sorted(scen.spreads(d["sel"]))
        spoil(r, S, d, frags, [f for f in frags if f not in need], r.choice([0, 1, 1, 2, 3, 5, 9, 14]))
        f = _under(root, "q%d.graphql" % i)
        if r.random() < .07:
            d["op"] = "anon"
            d["vars"] = []
        h = scen.header(r, [scen.import_path(r, root, None, f, where[n]) for n in need])
        sc.put_doc(f, d, h, r)
    for i in range(r.randrange(0, 4)):
        f = _under(root, "r%d.graphql" % i)
        x = r.random()
        if x < .3:
            sc.put_raw(f, r.choice(["query A { __typename }\nquery B { __typename }\n", "query A { __typename }\nfragment F on Query { __typename }\n",
                                    "{ __typename }\n{ __typename }\n", "fragment A on Query { __typename } fragment B on Query { __typename }"]), "multi")
        elif x < .5:
            sc.put_raw(f, r.choice(["", "\n", "   \n", "# nothing\n", "#import \"F0.graphql\"\n", "\n\n# a\n", "# nothing but comments\n" * 40, "\n" * 500, "#" + " long" * 3000, "," * 300]), "empty")
        else:
            sc.put_raw(f, r.choice(["query {", "query A { a: }", "query A { ... }", "type X { a: Int }",
                                    "schema { query: Query }", "query A() { __typename }", "query A { __typename } }", "qurey A { __typename }",
                                    "query A { }", "query A { a(x: ) }", "%", "query A($x) { __typename }", "\"doc\" query A { __typename }"]), "bad")
    sc.run(c)


def typo(r, name, n):
    """The name after n slips of the keyboard."""
    s = list(name)
    for _ in range(n):
        x = r.randrange(4)
        i = r.randrange(len(s)) if s else 0
        if x == 0 or not s:
            s.insert(r.randrange(len(s) + 1), r.choice("abexz" + name))
        elif x == 1 and len(s) > 1:
            del s[i]
        elif x == 2:
            s[i] = r.choice("abexz" + name)
        elif i + 1 < len(s):
            s[i], s[i + 1] = s[i + 1], s[i]
    t = "".join(s)
    return "a" + t if t[0].isdigit() else t


def _spots(S, d):
    T = S["types"]
    root = d["on"] if d["op"] == "fragment" else d["op"].capitalize()
    out = []

    def walk(sel, t):
        out.append((sel, t))
        for it in sel:
            if it["k"] == "f" and it["sel"] and it["name"] in T[t]["f"]:
                walk(it["sel"], T[t]["f"][it["name"]]["n"])
            elif it["k"] == "i" and it["on"] in T and T[it["on"]]["k"] in ("OBJECT", "INTERFACE", "UNION"):
                walk(it["sel"], it["on"])
    if root in T and T[root]["k"] in ("OBJECT", "INTERFACE", "UNION"):
        walk(d["sel"], root)
    return out


def explain(sc, r, seed):
    """Mistakes that are near misses, warnings, and the words in which they are reported."""
    sc.explain = True
    S = gen.schema(r, docs=r.random() < .3, inputs=0, depr=.4)
    root = r.choice(MAIN)
    c = scen.rand_cli(r, root)
    c["depr"] = r.random() < .8
    sc.put_schema(_schema_path(root), S, r)
    keys = gen.Keys(r)
    frags, where = {}, {}
    near = r.random() < .5
    for i in range(r.choice([1, 3, 5])):
        n = (r.choice(["Part", "Prat", "Parts", "Art", "Apart", "rapt", "Partly", "Pt"]) + r.choice(["", "", "s", "%d" % i])) if near else "F%d" % i
        if n in frags:
            continue
        d = gen.fragment(r, S, n, {}, 2, 3, keys)
        frags[n] = d["on"]
        where[n] = _under(root, "%s.graphql" % n)
        sc.put_doc(where[n], d, [], r)
    for i in range(6):
        x = r.random()
        if x < .2:
            d = gen.fragment(r, S, "G%d" % i, frags, 2, 4, keys)
        else:
            op = "mutation" if "Mutation" in S["types"] and r.random() < .2 else "query"
            d = {"op": op, "name": "Q%d" % i, "on": "", "vars": [], "sel": gen.selection(r, S, op.capitalize(), keys, frags, 3, 4, loose=.4)}
        need = scen.spreads(d["sel"]) | {n for n in frags if r.random() < .5}
        if x < .75:
            for _ in range(r.choice([1, 1, 2, 3])):
                spots = _spots(S, d)
                if not spots:
                    break
                sel, t = r.choice(spots)
                y = r.random()
                if y < .5 and S["types"][t]["f"]:
                    n = typo(r, r.choice(sorted(S["types"][t]["f"])), r.choice([1, 1, 2, 2, 3, 4]))
                    if n not in S["types"][t]["f"]:
                        sel.insert(r.randrange(len(sel) + 1), _leaf("ty%d" % r.randrange(10 ** 6), n))
                elif y < .8 and frags:
                    n = typo(r, r.choice(sorted(frags)), r.choice([0, 1, 1, 2, 2, 3]))
                    if n not in need and n != "on":
                        sel.insert(r.randrange(len(sel) + 1), {"k": "s", "frag": n})
                else:
                    spoil(r, S, d, {}, [], 1)
        f = _under(root, r.choice(["", "", "deep/"]) + "q%d.graphql" % i)
        h = scen.header(r, [scen.import_path(r, root, None, f, where[n]) for n in sorted(need)] + (["./gone.graphql"] if r.random() < .08 else []))
        if r.random() < .1:
            h = r.choice([[], h]) + [""] * r.choice([7, 8, 90, 97, 98, 120, 990]) + h
        sc.put_doc(f, d, h, r)
    x = r.random()
    if x < .35:
        sc.run(c, args=R.argv(c) + ["--no-color"], env={"NO_COLOR": None, "CLICOLOR_FORCE": r.choice([None, "1"])})
    elif x < .6:
        sc.run(c, env={"NO_COLOR": None, "TERM": "xterm-256color"})
    else:
        sc.run(c)
    for i in range(r.choice([1, 2, 3])):
        sc.run(dict(c, threads=r.choice([[], [1], [2], [7]])))


def typed(sc, r, seed):
    """Valid documents whose outputs the TypeScript compiler gets to see."""
    sc.typed = True
    r.choice([world, world, abstract, inputs, variables, wrappers, evil])(sc, r, seed)


def many(sc, r, seed):
    """Runs with a given number of errors, around the numbers at which a counter might wrap."""
    S = _simple_schema()
    root = r.choice(MAIN)
    warn = r.random() < .3
    c = R.cli(root=root or None, threads=r.choice([None, 1, 4]), depr=warn)
    sc.put_schema(_schema_path(root), S, r)
    left = r.choice([255, 256, 256, 256, 257, 512, 128, 100])
    n = 0
    while left:
        k = min(left, r.choice([left, 64, 100, 128]))
        left -= k
        d = {"op": "query", "name": "Q%d" % n, "on": "", "vars": [], "sel": [_leaf("n%d" % i, "old" if warn else "nope%d" % i) for i in range(k)]}
        sc.put_doc(_under(root, "q%d.graphql" % n), d, [], r)
        n += 1
    sc.put_doc(_under(root, "good.graphql"), _simple_doc(r, "Good"), [], r)
    sc.run(c)


# ------------------------------------------------------------------ imports
def chains(sc, r, seed):
    """Long chains of imports, many imports in one document, ladders of diamonds."""
    S = _simple_schema()
    root = r.choice(MAIN)
    c = R.cli(root=root or None, threads=r.choice([None, 1, 3]))
    sc.put_schema(_schema_path(root), S, r)
    kind = ["chain", "fan", "ladder"][int(seed.rsplit(".", 1)[-1]) % 3]
    dirs = ["", "p", "p/q", "p/q/r", "s"]
    for d in dirs[1:]:
        sc.put_dir(_under(root, d))
    n = {"chain": [5, 9, 14, 33, 50], "fan": [9, 20, 50], "ladder": [8, 20, 32]}[kind]
    n = r.choice(n)
    names = ["F%d" % i for i in range(n)]
    where = {x: _under(root, posixpath.join(r.choice(dirs), x + ".graphql")) for x in names}
    spread = r.random() < .4 and kind == "chain"
    for i, x in enumerate(names):
        imp = []
        if kind == "chain" and i + 1 < n:
            imp = [names[i + 1]]
        if kind == "ladder":
            imp = [y for y in (names[(i | 1) + 1:(i | 1) + 3])]
        sel = [_leaf(r.choice(["__typename", "when"]))]
        sel[0]["name"] = sel[0]["key"]
        if spread and imp:
            sel.append({"k": "s", "frag": imp[0]})
        lines = ['#import "%s"' % scen.import_path(r, root, None, where[x], where[y]) for y in imp]
        if i == n - 1 and r.random() < .4:
            lines.append('#import "./nowhere.graphql"')
        sc.put_doc(where[x], {"op": "fragment", "name": x, "on": "Query", "vars": [], "sel": sel}, lines, r)
    for i in range(4):
        f = _under(root, posixpath.join(r.choice(dirs), "q%d.graphql" % i))
        imp = names if kind == "fan" else names[:2] if kind == "ladder" else [r.choice(names[:3])] if i else names[:1]
        use = {r.choice(names) for _ in range(r.choice([1, 1, 2, 3]))}
        if i == 0 and not spread:
            use = {names[-1], r.choice(names)}
        if i == 1:
            use.add("Gone")
        d = {"op": "query", "name": "Q%d" % i, "on": "", "vars": [], "sel": [_leaf("__typename", "__typename")] + [{"k": "s", "frag": y} for y in sorted(use)]}
        sc.put_doc(f, d, ['#import "%s"' % scen.import_path(r, root, None, f, where[y]) for y in imp], r)
    sc.run(c)


def imports(sc, r, seed):
    """Arbitrary import graphs, spellings and import mistakes."""
    S = gen.schema(r, docs=False, inputs=0)
    root = r.choice(["", "root", "a/b"])
    prefix = r.choice([None, None] + scen.PREFIXES)
    c = R.cli(root=root or None, importPrefix=prefix, threads=r.choice([None, 1, 2, 4]))
    T = S["types"]
    comp = [x for x, v in T.items() if v["k"] == "OBJECT"]
    sc.put_schema(_schema_path(root), S, r)
    n = r.randrange(2, 7)
    names = ["F%d" % i for i in range(n)]
    dirs = ["", "x", "x/y", "z"]
    where = {}
    for x in names:
        d = r.choice(dirs)
        odd = r.choice(['%s "q"', '"%s', '%s x', '#%s', '%s\u00fc', 'a.b.%s', '%%20%s', "'%s'", '%s\\n', '-%s', '%s"']) if r.random() < .2 else "%s"
        f = posixpath.join(d, odd % x + r.choice([".graphql", ".graphql", ".graphql", ".gql", ".fragment"]))
        where[x] = _under(root, f) if r.random() < .85 else posixpath.join("out", f)
        same = posixpath.join(posixpath.dirname(where[x]), "same.graphql")
        if r.random() < .3 and same not in where.values():
            where[x] = same
    sc.put_dir("out")
    extra = {"missing": _under(root, "x/missing.graphql"), "query": _under(root, "aquery.graphql"), "bad": _under(root, "x/bad.graphql"),
             "dir": _under(root, "x")}
    sc.put_doc(extra["query"], {"op": "query", "name": "Imported", "on": "", "vars": [], "sel": [_leaf("__typename")]}, [], r)
    if r.random() < .3:
        sc.put_raw(extra["bad"], "fragment Broken on {", "bad")
    else:
        extra.pop("bad")
    sc.put_dir(_under(root, "x"))
    sc.put_dir(_under(root, "x/y"))
    sc.put_dir(_under(root, "z"))
    for d in dirs[4:]:
        sc.put_dir(_under(root, d))
    dens = r.choice([.15, .3, .5])
    mist = r.choice([0, 0, .1, .3])
    edges = {x: [y for y in names if r.random() < dens] for x in names}
    tdepth = {x: r.choice(comp) for x in names}

    def header(f, targets):
        lines = []
        for t in targets:
            lines.append('#import "%s"%s' % (scen.import_path(r, root, prefix, f, t), r.choice(["", "", " # x", "  ", " # " + "\u00e9" * 90])))
        if r.random() < mist:
            t = r.choice(list(extra.values()))
            lines.append('#import "%s"' % scen.import_path(r, root, prefix, f, t))
        r.shuffle(lines)
        out = []
        for l in lines:
            while r.random() < .3:
                out.append(r.choice(["", "# note", "  ", "\t", "#import 'F0.graphql'", "# import \"F1.graphql\"", "#importing", "#import\"F0.graphql\"",
                                     "#import  \"F1.graphql\"", "#Import \"F2.graphql\"", "##import \"F0.graphql\""]))
            out.append(l)
        if r.random() < .2:
            out.append(r.choice(["", "#", "# end", " "]))
        return out
    late = lambda: '\n#import "%s"\n' % r.choice(["F0.graphql", "nowhere.graphql"]) if r.random() < .2 else ""

    def body(sc_put, f, d, h):
        text = gql.render({"def": d, "header_lines": h, "text": None}, r)
        return sc.put_doc(f, d, text=text + late())
    for x in names:
        sel = [_leaf("__typename")]
        if r.random() < .3:
            # fragments may spread others, mostly without cycles
            y = r.choice(names)
            if names.index(y) > names.index(x) or r.random() < .1:
                sel.append({"k": "s", "frag": y})
        d = {"op": "fragment", "name": x, "on": tdepth[x], "vars": [], "sel": sel}
        body(sc, where[x], d, header(where[x], [where[y] for y in edges[x]]))
    for i in range(r.randrange(2, 6)):
        f = _under(root, posixpath.join(r.choice(dirs), "q%d.graphql" % i))
        imp = [x for x in names if r.random() < dens]
        sel = [_leaf("__typename")]
        for x in names:
            if r.random() < .5:
                sel.append({"k": "s", "frag": x})
        if r.random() < .05:
            sel.append({"k": "s", "frag": "Imported"})
        d = {"op": "query", "name": "Q%d" % i, "on": "", "vars": [], "sel": sel}
        body(sc, f, d, header(f, [where[x] for x in imp]))
    sc.run(c)


def ghosts(sc, r, seed):
    """Schemas that mention types they do not define: only crashes and endless runs count."""
    S = gen.schema(r, inputs=2)
    root = r.choice(MAIN)
    c = scen.rand_cli(r, root)
    sp = _schema_path(root)
    sc.put_schema(sp, S, r)
    scen.world(sc, r, S, c, nfrag=3, ndoc=6)
    T = S["types"]
    glob = [n for n, t in T.items() if t["k"] in ("INPUT_OBJECT", "ENUM")]
    sc.put_doc(_under(root, "all.graphql"), {"op": "query", "name": "All", "on": "", "vars": [
        {"name": "v%d" % i, "w": [], "n": n, "pos": [0, 0]} for i, n in enumerate(glob)], "sel": [_leaf("__typename")]}, [], r)
    for _ in range(4):
        j = gql.introspection(S, None)
        ts = j["data"]["__schema"]["types"]
        for _ in range(r.choice([1, 1, 2, 3])):
            x = r.random()
            t = r.choice(ts)
            if x < .3:
                drop = r.choice([t["name"] for t in ts])
                ts[:] = [t for t in ts if t["name"] != drop]
                if not ts:
                    break
            elif x < .5:
                for t in ts:
                    if t.get("possibleTypes") is not None:
                        t["possibleTypes"].append({"kind": "OBJECT", "name": r.choice(["Gone", "Int", "Query", t["name"]]), "ofType": None})
            elif x < .6:
                for t in ts:
                    if t.get("possibleTypes"):
                        t["possibleTypes"] = t["possibleTypes"][:-1]
            elif x < .7:
                ts.append(copy.deepcopy(t))
            elif x < .8 and (t.get("fields") or t.get("inputFields")):
                fs = t.get("fields") or t.get("inputFields")
                fs.append(copy.deepcopy(r.choice(fs)))
            elif t.get("fields") or t.get("inputFields"):
                f = r.choice(t.get("fields") or t.get("inputFields"))
                ty = f["type"]
                while ty.get("ofType"):
                    ty = ty["ofType"]
                y = r.random()
                if y < .5:
                    ty["name"] = r.choice(["Gone", "", "Query", "Int", "__Type"])
                else:
                    ty["kind"] = r.choice(["OBJECT", "INTERFACE", "UNION", "ENUM", "SCALAR", "INPUT_OBJECT"])
        sc.put_raw(sp, json.dumps(j), "fuzz")
        sc.run(c, blind=True)


# ------------------------------------------------------------------ files
def _simple_schema(r=None):
    return gql.with_builtins({
        "Query": gql.ty("OBJECT", {"color": "Color", "cat": "Cat!", "when": "Date", "old": gql.fld("Int", d=True)}),
        "Cat": gql.ty("OBJECT", {"name": "String!", "born": "Date!", "mate": "Cat"}),
        "Color": gql.ty("ENUM", vals=["RED", "BLUE"]), "Date": gql.ty("SCALAR"),
        "Filter": gql.ty("INPUT_OBJECT", {"since": "Date", "color": "[Color!]"})})


def _simple_doc(r, name, valid=True, glob=.4):
    sel = [_leaf("__typename")]
    if r.random() < glob:
        sel.append(_leaf("color", "color"))
    if r.random() < .5:
        sel.append({"k": "f", "name": "cat", "key": "cat", "args": "", "sel": [_leaf(x, x) for x in r.sample(["name", "born"], r.randrange(1, 3))]})
    if r.random() < .3:
        sel.append(_leaf("old", "old"))
    if r.random() < .3:
        sel.append(_leaf("when", "when"))
    if not valid:
        sel.insert(r.randrange(len(sel) + 1), _leaf("nope", "nope"))
    vs = [{"name": "f", "w": [], "n": r.choice(["Filter", "Int", "Color"]), "pos": [0, 0]}] if r.random() < glob else []
    return {"op": "query", "name": name, "on": "", "vars": vs, "sel": sel}


NAMES = ["a.graphql", "b.graphql", "Long Name.graphql", "x.y.graphql", "-dash.graphql", "UP.graphql", "a.b.c.graphql", "0.graphql",
         "d.ts.graphql", "graphql.graphql", "a.graphql.graphql", ".hidden.graphql"]
OTHERS = ["c.GRAPHQL", "d.graphqls", "e.gql", "f.graphql.bak", "g.graphql~", "graphql", "h.graphql.d.ts", "i.ts", "README.md", ".graphql",
          "k.graphql.ts", "l.graphq", "m.json", "schema.graphql.txt", "graphql-globals.d.ts", "n.graphql "]
DIRS = ["sub", "sub/deep", "sub/deep/er", "dir.graphql", "node_modules/pkg", ".git", "with space", "x.d.ts"]


def tree(sc, r, seed):
    """Shapes of directory trees around and below the root directory."""
    S = _simple_schema()
    root = r.choice(["", "root", "root/inner", "root"])
    spelled = {"": [None, ".", "./", "./."], "root": ["root", "./root", "root/", "sub0/../root", "root/."],
               "root/inner": ["root/inner", "./root/inner/", "root/../root/inner"]}[root]
    sp = r.choice(spelled)
    sc.put_dir("sub0")
    g = r.choice([None, "globals", "sub/globals", "types/all.d.ts", "g.ts", "./gg", "a.b", ".dot"])
    pre = r.choice([None, None, "@/"])
    if pre and r.random() < .5:
        g = pre + "globals"
    c = R.cli(root=sp, globals=g, threads=r.choice([None, 1, 2, 3, 16]),
              importPrefix=pre if not (g or "").startswith("@") or pre else None,
              schema="the-schema.json" if r.random() < .5 else None)
    sc.put_schema("the-schema.json" if c["schema"] else _schema_path(root), S, r)
    n = 0
    dirs = [""] + r.sample(DIRS, r.randrange(0, 6))
    for d in dirs:
        base = _under(root, d)
        if d:
            sc.put_dir(base)
        for x in r.sample(NAMES, r.randrange(0, 4)):
            n += 1
            f = posixpath.join(base, x)
            y = r.random()
            if y < .85:
                sc.put_doc(f, _simple_doc(r, "Op%d" % n, valid=r.random() < .9), [], r)
            else:
                sc.put_raw(f, "query {", "bad")
            if r.random() < .2:
                sc.put_other(f + ".d.ts", "old output\n")
        for x in r.sample(OTHERS, r.randrange(0, 4)):
            sc.put_other(posixpath.join(base, x), r.choice(["query Z { __typename }\n", "{}", ""]))
    # outside the root
    if root:
        n += 1
        sc.put_doc("outside.graphql", _simple_doc(r, "Out%d" % n), [], r)
        sc.put_doc("root2/x.graphql", _simple_doc(r, "Out2"), [], r)
        sc.put_other("root2/x.graphql.d.ts", "kept\n")
    if r.random() < .5:
        links = 0
        if root:
            sc.put_link(_under(root, "linked"), "../" * (root.count("/") + 1) + "root2")
            links += 1
        sc.put_link(_under(root, "loop"), ".")
        for f in [f for f in list(sc.tree) if f.endswith(".graphql") and sc.tree[f]["kind"] == "file"][:1]:
            sc.put_link(_under(root, "alias.graphql"), posixpath.relpath(f, root or "."))
        sc.put_link(_under(root, "dangling.graphql"), "nowhere.graphql")
    if r.random() < .2:
        sc.put_fifo(_under(root, "pipe.graphql"))
    sc.run(c)


def large(sc, r, seed):
    """Trees that are wide or deep, with many documents, directories or long names."""
    S = _simple_schema()
    kind = ["wide", "deep", "bushy", "long", "both"][int(seed.rsplit(".", 1)[-1]) % 5]
    root = r.choice(MAIN)
    sc.put_schema(_schema_path(root), S, r)
    n = 0

    def put(d, name=None):
        nonlocal n
        n += 1
        doc = {"op": "query", "name": "L%d" % n, "on": "", "vars": [], "sel": [_leaf(x, x) for x in r.sample(["__typename", "old", "when"], r.choice([1, 1, 2]))]}
        if n % 97 == 0:
            doc["sel"].append(_leaf("color", "color"))
        sc.put_doc(_under(root, posixpath.join(d, name or "x%d.graphql" % n)), doc, [], r)
    if kind in ("wide", "both"):
        for i in range(r.choice([130, 260, 520]) if kind == "both" else r.choice([600, 800, 1100])):
            put("wide")
    if kind in ("deep", "both"):
        d = ""
        for i in range(r.choice([20, 35, 70])):
            d = posixpath.join(d, r.choice(["d", "e%d" % i]))
            sc.put_dir(_under(root, d))
            if r.random() < .5:
                put(d)
        put(d)
    if kind == "bushy":
        for i in range(r.choice([150, 300])):
            sc.put_dir(_under(root, "b%d" % i))
            put("b%d" % i)
    if kind == "long":
        for k in (60, 100, 128, 200, 242):
            put("", "n" * k + ".graphql")
            put("m" * k)
    sc.run(R.cli(root=root or None, threads=r.choice([1, 2, 4, 8])))


def faults(sc, r, seed):
    """Files and directories that cannot be read, listed, parsed or written, among good ones."""
    S = _simple_schema()
    root = r.choice(MAIN)
    c = R.cli(root=root or None, threads=r.choice([None, 1, 2, 8]), globals=r.choice([None, "gone/g", "blocked"]) if r.random() < .3 else None,
              depr=r.random() < .5)
    sc.put_schema(_schema_path(root), S, r)
    dirs = ["", "sub", "sub/deep", "shut", "open"]
    for d in dirs:
        if d:
            sc.put_dir(_under(root, d))
    if c["globals"] == ["blocked"]:
        sc.put_dir(_under(root, "blocked.ts"))
    n = 0
    first = r.random() < .5
    good = []
    for d in dirs:
        for _ in range(r.randrange(0, 4)):
            n += 1
            f = _under(root, posixpath.join(d, "f%d.graphql" % n))
            y = r.random()
            if y < .5:
                sc.put_doc(f, _simple_doc(r, "Op%d" % n), [], r)
                good.append(f)
            elif y < .6:
                sc.put_doc(f, _simple_doc(r, "Op%d" % n, valid=False), [], r)
            elif y < .68:
                sc.put_raw(f, "query A { __typename }", "unreadable", 0o000)
            elif y < .76:
                sc.put_raw(f, b"query A { __typename } # \xff\xfe\n", "nonutf")
            elif y < .84:
                sc.put_raw(f, r.choice(["query {", "", "query A { a } query B { b }"]), r.choice(["bad"]) if y < .80 else "bad")
            else:
                sc.put_doc(f, _simple_doc(r, "Op%d" % n), [], r)
                if r.random() < .5:
                    sc.put_dir(f + ".d.ts")
                else:
                    sc.put_raw(f + ".d.ts", "locked\n", "readonly", 0o444)
    if first:
        sc.run(c)
        # break some documents that have outputs now
        for f in good:
            y = r.random()
            if y < .2:
                sc.put_doc(f, _simple_doc(r, "Bad", valid=False), [], r)
            elif y < .3:
                sc.put_raw(f, "query A { __typename }", "unreadable", 0o000)
            elif y < .4:
                sc.put_raw(f, "not graphql", "bad")
            elif y < .5:
                sc.remove(f)
    if r.random() < .5:
        shut = _under(root, "shut")
        for f in [f for f in list(sc.tree) if f.startswith(shut + "/")]:
            pass
        sc.put_dir(shut, "unlistable")
    sc.run(c)


# ------------------------------------------------------------------ histories
def history(sc, r, seed):
    """Edits and runs in turn."""
    S = gen.schema(r, inputs=2)
    S2 = copy.deepcopy(S)
    for t in S2["types"].values():
        for f in t["f"].values():
            if r.random() < .2 and t["k"] != "INTERFACE":
                f["d"] = not f["d"]
            if t["k"] == "INPUT_OBJECT" and r.random() < .2:
                f["w"] = gen.wrappers(r, 2)
    root = r.choice(MAIN)
    c = scen.rand_cli(r, root)
    sp = _schema_path(root)
    sc.put_schema(sp, S, r)
    scen.world(sc, r, S, c, nfrag=3, ndoc=4, depth=2, budget=4)
    sc.run(c)
    cur = S
    versions = [dict((f, None) for f in sc.tree)]
    texts = {}
    for step in range(r.randrange(2, 5)):
        for _ in range(r.randrange(0, 3)):
            docs = sorted(f for f, s in sc.tree.items() if f.endswith(".graphql") and s["kind"] == "file")
            y = r.random()
            f = r.choice(docs)
            if y < .2:
                # unrelated edits
                sc.put_other(_under(root, r.choice(["notes.txt", "x.gql", "sub/y.ts"])), "n%d" % r.randrange(9))
            elif y < .35:
                sc.put_doc(_under(root, "new%d.graphql" % r.randrange(3)), gen.operation(r, cur, "New", {}, 2, 3), [], r)
            elif y < .45:
                sc.put_raw(f, "query {", "bad")
            elif y < .55:
                sc.remove(f)
            elif y < .65:
                cur = S2 if cur is S else S
                sc.put_schema(sp, cur, r)
            elif y < .75:
                sc.put_schema(sp, cur, r)      # another spelling of the same schema
            elif y < .88:
                # a fragment changes, a twin of it appears, the documents stay as they are
                frs = sorted(g for g, s in sc.tree.items() if s["st"] == "ok" and s.get("def", {}).get("op") == "fragment")
                if frs and r.random() < .7:
                    f = r.choice(frs)
                    d = gen.fragment(r, cur, sc.tree[f]["def"]["name"], {}, 1, 3, on=sc.tree[f]["def"]["on"])
                    sc.put_doc(f, d, [], r)
                else:
                    scen.decoy(sc, r, cur)
            else:
                # tamper with an output, as an editor or a merge might
                t = f + ".d.ts"
                if __import__("os").path.exists(sc.abs(t)) and r.random() < .5:
                    sc.forget(t)
        c2 = dict(c)
        if r.random() < .3:
            c2["threads"] = [r.choice([1, 2, 5])]
        if r.random() < .2:
            c2["depr"] = not c2["depr"]
        if r.random() < .15:
            c2["disableReadonly"] = not c2["disableReadonly"]
        sc.run(c2)
    # the same sources without any earlier output
    for f, x in sorted(sc.tree.items()):
        if x["kind"] == "file" and f.endswith(".graphql") and __import__("os").path.exists(sc.abs(f + ".d.ts")):
            sc.forget(f + ".d.ts")
    gl = sc.globals_path(c2, root)
    if __import__("os").path.exists(sc.abs(gl)):
        sc.forget(gl)
    sc.run(c2)


# ------------------------------------------------------------------ configuration
def config(sc, r, seed):
    """Options on the command line, in the config file, in both or in neither."""
    S = _simple_schema()
    S2 = copy.deepcopy(S)
    S2["types"]["Cat"]["f"]["name"] = gql.fld("[Int]")
    root = r.choice(["", "root"])
    opts = {}
    kw = {}

    def both(key, vals):
        y = r.random()
        if y < .35:
            return
        if y < .8:
            opts[key] = r.choice(vals)
        if y > .55:
            kw[key] = r.choice(vals)
    both("importPrefix", ["@/", "~/"])
    both("globals", ["gl", "gl2.ts", "gl3.d.ts", "@/glp", "./gl4"])
    both("node", ["node-a", "../node-b", "./node-c"])
    both("threads", [1, 2, 0])
    both("scalars", [True, False])
    both("disableReadonly", [True, False])
    both("depr", [True, False])
    if r.random() < .5:
        opts["scalarPrefix"] = r.choice(["P", "Q_"])
    if r.random() < (.5 if kw.get("scalars") else .1):
        kw["scalarPrefix"] = r.choice(["C", "D_"])
    kw = {k: v for k, v in kw.items() if v is not False}
    where = r.choice(["none", "default", "default", "explicit", "explicit", "deep"])
    cpath = {"default": ".qlcrc.json", "explicit": "my.json", "deep": "conf/deep/q.json"}.get(where)
    if where in ("explicit", "deep"):
        kw["config"] = r.choice(["", "./"]) + cpath
    # schemas at the places the options may name
    if r.random() < .4:
        opts["schema"] = r.choice(["alt.json", "../alt.json" if where == "deep" else "s/alt.json", "/W/abs.json", "./alt.json"])
    if r.random() < .25:
        kw["schema"] = r.choice(["cli.json", "s/cli.json", "/W/abs.json"])
    places = {"cli.json": S, "s/cli.json": S2, "abs.json": S, _schema_path(root): S2}
    if root and r.random() < .5:
        places["schema.json"] = S
    d = posixpath.dirname(cpath) if cpath else ""
    for q in ("alt.json", "s/alt.json", "../alt.json"):
        places[posixpath.normpath(posixpath.join(d, q))] = r.choice([S, S2])
    if r.random() < .9:
        for q, s in places.items():
            if r.random() < .9 and not q.startswith(".."):
                sc.put_schema(q, s, r)
    if where != "none" and r.random() < .92:
        y = r.random()
        if y < .12:
            sc.put_conf(cpath, {}, raw=r.choice(["", "{", "[]", "null", "{\"useCustomScalars\": \"yes\"}", "{\"numThreads\": \"4\"}",
                                                  "{\"numThreads\": -1}", "{\"schemaFile\": 3}", "3", "{\"numThreads\": 1.5}", "{} {}"]))
        else:
            sc.put_conf(cpath, opts)
    if r.random() < .1:
        # a default file that must be ignored when another one is named, and used otherwise
        if ".qlcrc.json" not in sc.tree:
            sc.put_conf(".qlcrc.json", {"globals": "from-default", "disableReadonly": True})
    if root:
        kw["root"] = root
    frag = {"op": "fragment", "name": "F", "on": "Cat", "vars": [], "sel": [_leaf("born", "born"), _leaf("name", "name")]}
    sc.put_doc(_under(root, "lib/F.graphql"), frag, [], r)
    pre = r.choice(["@/", "~/"])
    q = {"op": "query", "name": "Q", "on": "", "vars": [{"name": "f", "w": [], "n": "Filter", "pos": [0, 0]}],
         "sel": [_leaf("old", "old"), _leaf("when", "when"), _leaf("color", "color"),
                 {"k": "f", "name": "cat", "key": "cat", "args": "", "sel": [{"k": "s", "frag": "F"}]}]}
    if r.random() < .5:
        sc.put_doc(_under(root, "q.graphql"), q, ['#import "%slib/F.graphql"' % pre], r)
    else:
        sc.put_doc(_under(root, "q.graphql"), q, ['#import "lib/F.graphql"'], r)
    sc.put_doc(_under(root, "bad.graphql") if r.random() < .2 else "x/y.txt.graphql", _simple_doc(r, "B", valid=False), [], r)
    sc.run(R.cli(**kw))


# ------------------------------------------------------------------ schema ingestion
def ingest(sc, r, seed):
    """A schema in its canonical form, in an equivalent one, then with something broken."""
    S = gen.schema(r, inputs=2)
    root = r.choice(MAIN)
    c = scen.rand_cli(r, root)
    sp = _schema_path(root)
    sc.put_schema(sp, S, None)
    scen.world(sc, r, S, c, nfrag=2, ndoc=4, depth=2, budget=4)
    sc.run(c)
    for _ in range(2):
        j = gql.introspection(S, r)
        decorate(r, j)
        if r.random() < .3:
            j = {"extensions": {"x": 1}, **j}
        text = json.dumps(j, ensure_ascii=r.random() < .5, indent=r.choice([None, 2]))
        if r.random() < .2:
            text = "\n\n" + text + "\n"
        sc.put_schema(sp, S, text=text)
        sc.run(c)
    for _ in range(3):
        x = r.random()
        if x < .15:
            sc.put_schema(sp, None, text=r.choice(["", "null", "[]", "{}", "{\"data\": {}}", "{\"data\": {\"__schema\": {}}}", "not json",
                                                   "{\"data\": null}", "{\"data\": {\"__schema\": null}}", "3", "\"x\""]), st="bad")
        elif x < .25:
            t = json.dumps(gql.introspection(S, None))
            t = t[:r.randrange(1, len(t) - 1)] if r.random() < .6 else \
                r.choice([t + r.choice(["}", "x", "\n{}", ",", t, "\n//", "]", "\x00"]), r.choice(["x", "[", "//\n", "\ufeff"]) + t, t.replace(":", "=", 1), t.replace('"', "'")])
            sc.put_schema(sp, None, text=t, st="bad")
        elif x < .3:
            sc.remove(sp)
        elif x < .35:
            sc.remove(sp)
            sc.put_dir(sp)
            sc.run(c)
            sc.remove(sp)
            continue
        elif x < .38:
            sc.put_raw(sp, b"{\"data\": \"\xff\"}", "nonutf")
        else:
            j = gql.introspection(S, None)
            if not damage(r, j):
                continue
            sc.put_schema(sp, None, text=json.dumps(j), st="bad")
        sc.run(c)


def decorate(r, j):
    """Additions and omissions that change nothing."""
    s = j["data"]["__schema"]
    for t in s["types"]:
        if r.random() < .2:
            t["specifiedByURL"] = None
        if r.random() < .2:
            t["isOneOf"] = False
        if r.random() < .1:
            t["extra"] = {"a": [1, 2, {"b": None}]}
        if r.random() < .2 and t["kind"] == "SCALAR":
            t["fields"] = []
        for f in (t.get("fields") or []):
            if r.random() < .2:
                f["args"] = [{"name": "x", "type": {"kind": "SCALAR", "name": "Int", "ofType": None}, "defaultValue": "3"}]
            if f.get("isDeprecated") and r.random() < .5:
                f["deprecationReason"] = "gone */"
            if f.get("description") is None and r.random() < .3:
                f.pop("description", None)
    if r.random() < .5:
        s["types"].append({"kind": "OBJECT", "name": "__Type", "description": "unused", "fields": [
            {"name": "name", "args": [], "type": {"kind": "SCALAR", "name": "String", "ofType": None}, "isDeprecated": False}],
            "inputFields": None, "interfaces": [], "enumValues": None, "possibleTypes": None})
        s["types"].append({"kind": "ENUM", "name": "__Kind", "enumValues": [{"name": "A", "isDeprecated": True}]})
    if r.random() < .3:
        s.pop("directives", None)
    if r.random() < .3:
        s.pop("subscriptionType", None)
    if r.random() < .5:
        r.shuffle(s["types"])


def damage(r, j):
    """Breaks one part of an introspection result."""
    ts = j["data"]["__schema"]["types"]
    t = r.choice(ts)
    k = t["kind"]
    if r.random() < .3:
        # types nothing uses, and those of the introspection system, count as well
        ts.append({"kind": r.choice(["INPUT_OBJECT", "ENUM", "UNION", "OBJECT", "INTERFACE"]), "name": r.choice(["__Extra", "__Type", "Unused", "_x"])})
        r.shuffle(ts)
        return True
    x = r.random()
    if x < .15:
        t["kind"] = r.choice(["THING", "object", "", "LIST", "NON_NULL"])
        return True
    if x < .22:
        t.pop("kind")
        return True
    if x < .3:
        t.pop("name")
        return True
    if k in ("OBJECT", "INTERFACE"):
        y = r.random()
        if y < .25:
            t["fields"] = None
            return True
        if y < .35:
            t.pop("fields", None)
            return True
        if not t["fields"]:
            return False
        f = r.choice(t["fields"])
        return damage_type(r, f) if y < .8 else bool(f.pop("name", None))
    if k == "INPUT_OBJECT":
        if r.random() < .4:
            t["inputFields"] = None
            return True
        if not t["inputFields"]:
            return False
        f = r.choice(t["inputFields"])
        return damage_type(r, f)
    if k == "ENUM":
        t["enumValues"] = None
        if r.random() < .5:
            t.pop("enumValues")
        return True
    if k == "UNION":
        t["possibleTypes"] = None
        return True
    return False


def damage_type(r, f):
    ty = f["type"]
    chain = [ty]
    while chain[-1].get("ofType"):
        chain.append(chain[-1]["ofType"])
    x = r.random()
    if x < .25:
        f.pop("type")
        return True
    c = r.choice(chain)
    if c["kind"] in ("LIST", "NON_NULL"):
        c["ofType"] = None
        return True
    if x < .6:
        c["name"] = None
        return True
    c["kind"] = r.choice(["WHAT", ""])
    return True


# ------------------------------------------------------------------ crashes
def cycles(sc, r, seed):
    """Everything that can refer to itself: imports, fragments, input objects, interfaces."""
    S = gen.schema(r, inputs=3, docs=False)
    for t in S["types"].values():
        if t["k"] == "INPUT_OBJECT" and r.random() < .7:
            ins = [n for n, x in S["types"].items() if x["k"] == "INPUT_OBJECT"]
            t["f"]["again"] = gql.fld(r.choice(["%s", "[%s!]", "%s!"]) % r.choice(ins))
    root = r.choice(MAIN)
    c = scen.rand_cli(r, root)
    sc.put_schema(_schema_path(root), S, r)
    comp = [x for x, v in S["types"].items() if v["k"] == "OBJECT" and x not in ("Query", "Mutation")]
    n = r.randrange(1, 5)
    names = ["F%d" % i for i in range(n)]
    on = r.choice(comp)
    T = S["types"]
    loops = [x for x, f in T[on]["f"].items() if T[f["n"]]["k"] in ("OBJECT", "INTERFACE", "UNION") and on in gen.poss(S, f["n"])]
    where = {x: _under(root, r.choice(["", "a/"]) + x + ".graphql") for x in names}
    for x in names:
        sel = [_leaf("__typename")]
        tgt = [y for y in names if r.random() < .45]
        for y in tgt:
            s = {"k": "s", "frag": y}
            if loops and r.random() < .5:
                s = {"k": "f", "name": loops[0], "key": loops[0], "args": "", "sel": [s]}
            elif r.random() < .4:
                s = {"k": "i", "on": on, "sel": [s]}
            sel.append(s)
        imp = [y for y in names if r.random() < .5 or y in tgt]
        sc.put_doc(where[x], {"op": "fragment", "name": x, "on": on, "vars": [], "sel": sel},
                   ['#import "%s"' % scen.import_path(r, root, None, where[x], where[y]) for y in imp], r)
    ins = [x for x, v in T.items() if v["k"] == "INPUT_OBJECT"]
    for i in range(3):
        f = _under(root, "q%d.graphql" % i)
        use = r.sample(names, r.randrange(1, n + 1))
        d = {"op": "query", "name": "Q%d" % i, "on": "", "vars": [{"name": "v", "w": [], "n": r.choice(ins), "pos": [0, 0]}],
             "sel": [_leaf("__typename")] + [{"k": "s", "frag": y} for y in use]}
        sc.put_doc(f, d, ['#import "%s"' % scen.import_path(r, root, None, f, where[y]) for y in use], r)
    sc.run(c)


def depths(sc, r, seed):
    """Selections that fragments nest about as deeply as is allowed; chains of imports and of input objects that
    are longer than a stack would hold."""
    kind = ["fields", "inputs", "unions", "imports", "spreads"][int(seed.rsplit(".", 1)[-1]) % 5]
    root = "root"
    c = R.cli(root=root, threads=r.choice([None, 1, 3]))
    T = {"Query": gql.ty("OBJECT", {"x": "Int", "a": "Query!", "u": "Any", "many": "[Cat!]"}), "Cat": gql.ty("OBJECT", {"x": "Int", "q": "Query"}),
         "Any": gql.ty("UNION", poss=["Cat", "Query"])}
    S = gql.with_builtins(T)
    if kind == "inputs":
        n = r.choice([100, 12000])
        j = gql.introspection(S, None)
        for i in range(n):
            j["data"]["__schema"]["types"].append({"kind": "INPUT_OBJECT", "name": "I%d" % i, "inputFields": [
                {"name": "n", "type": {"kind": "INPUT_OBJECT", "name": "I%d" % (i + 1)} if i + 1 < n else {"kind": "SCALAR", "name": "Int"}}]})
        sc.put_raw(_schema_path(root), json.dumps(j).encode(), "fuzz")
        sc.put_raw(_under(root, "q.graphql"), b"query Q($i: I0) { x }", "fuzz")
        return sc.run(c, blind=True)
    sc.put_schema(_schema_path(root), S, r)
    if kind == "imports":
        n = r.choice([100, 3000])
        with tempfile.TemporaryDirectory() as d:
            os.chmod(d, 0o755)
            for i in range(n):
                with open("%s/f%d.graphql" % (d, i), "w") as f:
                    f.write(('#import "%s/f%d.graphql"\n' % (d, i + 1) if i + 1 < n else "") + "fragment F%d on Query { x }" % i)
            sc.put_raw(_under(root, "q.graphql"), b'#import "%s/f0.graphql"\nquery Q { ...F0 }' % d.encode(), "fuzz")
            return sc.run(c, blind=True)
    depth = r.choice([60, 110, 126, 127, 127, 128, 128, 129, 129, 130, 140])
    # from the inside: what is selected, and how deep that is
    sel, at, frags = [_leaf("x", "x")], 1, []
    step = {"fields": 30, "unions": 24, "spreads": 0}[kind]
    while at < depth:
        for _ in range(r.randrange(step // 2, step + 1)):
            if kind == "unions" and at + 2 <= depth - 1:
                sel, at = [{"k": "f", "name": "u", "key": "u", "args": "", "sel": [{"k": "i", "on": "Query", "sel": sel}]}], at + 2
            elif at < depth - 1:
                sel, at = [{"k": "f", "name": "a", "key": "a", "args": "", "sel": sel}], at + 1
        if at < depth:
            frags.append(sel)
            sel, at = [{"k": "s", "frag": "F%d" % (len(frags) - 1)}], at + 1
    where = ["lib/F%d.graphql" % i for i in range(len(frags))]
    for i, s in enumerate(frags):
        sc.put_doc(where[i], {"op": "fragment", "name": "F%d" % i, "on": "Query", "vars": [], "sel": s},
                   ['#import "./F%d.graphql"' % (i - 1)] if i else [], r)
    sc.put_doc(_under(root, "q.graphql"), {"op": "query", "name": "Q", "on": "", "vars": [], "sel": sel},
               ['#import "../%s"' % where[-1]] if where else [], r)
    sc.put_doc(_under(root, "p.graphql"), {"op": "query", "name": "P", "on": "", "vars": [], "sel": [_leaf("x", "x")]}, [], r)
    sc.run(c)


def _mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 4, 10])):
        x = r.random()
        i = r.randrange(len(b) + 1)
        if x < .3 and b:
            del b[min(i, len(b) - 1)]
        elif x < .5 and b:
            k = r.randrange(1, 12)
            del b[i:i + k]
        elif x < .7:
            b[i:i] = r.choice([b"{", b"}", b"...", b"on", b"\"", b"#import \"", b"\n", b"(", b")", b"[", b"]", b"!", b":", b"$", b"@", b"query",
                               b"fragment ", b"\"\"\"", b"\\", b"\x00", b"\xff", b"\xc3\xa9", b"\xe2\x80\xa8", b"null", b"=", b"|", b"&", b","])
        elif x < .85 and b:
            j = r.randrange(len(b))
            b[i:i] = b[j:j + r.randrange(1, 30)]
        elif b:
            b[min(i, len(b) - 1)] = r.randrange(256)
    return bytes(b)


WEIRD = [b'#import "', b'#import "\n', b'#import ""', b'#import "."', b'#import "/"', b'#import "..', b'#import "\x00"', b'#import "' + b"a" * 5000 + b'"',
         b'#import "q.graphql"\n' * 50, b"{" * 500, b"query A { " + b"a {" * 200 + b"}" * 200 + b" }", b"query A($x: " + b"[" * 300 + b"Int" + b"]" * 300 + b") { a }",
         b"\xef\xbb\xbfquery A { __typename }", b"query A { a(x: " + b"[" * 400 + b"]" * 400 + b") }", b"query A { ...A }", b"fragment A on Query { ...A }",
         b"fragment A on A { ...A }", b"query A @x { __typename }", b"query A { __typename @x(y: {a: 1}) }", b"query A { ... @include(if: true) { __typename } }",
         b"query A { ...on }", b"fragment on on on { on }", b"#", b"# nothing\n" * 200, b"\n#import", b"#import \"x", b"query A { __typename }\r\n", b"\r", b"query A($v: Int = {) { a }",
         b"subscription { __typename }", b"mutation { __typename }", b"extend type Q { a: Int }", b"query A { a: a: a }", b"query A{__typename}#import \"q.graphql\""]


def fuzz(sc, r, seed):
    """Damaged documents, schemas and config files: only crashes and endless runs count."""
    S = gen.schema(r, inputs=2, evil=.1)
    root = r.choice(MAIN)
    c = scen.rand_cli(r, root)
    sp = _schema_path(root)
    text = json.dumps(gql.introspection(S, r)).encode()
    sc.put_schema(sp, S, text=text)
    scen.world(sc, r, S, c, nfrag=2, ndoc=3)
    docs = [f for f, s in sc.tree.items() if f.endswith(".graphql")]
    src = {f: open(sc.abs(f), "rb").read() for f in docs}
    for _ in range(4):
        for i in range(6):
            f = _under(root, "z%d.graphql" % i)
            if r.random() < .3:
                sc.put_raw(f, r.choice(WEIRD), "fuzz")
            else:
                sc.put_raw(f, _mutate(r, src[r.choice(docs)]), "fuzz")
        if r.random() < .4:
            f = r.choice(docs)
            sc.put_raw(f, _mutate(r, src[f]), "fuzz")
        if r.random() < .3:
            sc.put_raw(sp, _mutate(r, text), "fuzz")
        if r.random() < .2:
            sc.put_raw(".qlcrc.json", _mutate(r, b'{"schemaFile": "x.json", "numThreads": 3, "useCustomScalars": true, "rootDirImportPrefix": "@/"}'), "fuzz")
        sc.run(c, blind=True)
