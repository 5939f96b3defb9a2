"""Cases enumerated by TLC (spec/MC*.tla), replayed on the real program. The recordings are judged by
spec/QlcTrace.tla like all others."""
import copy
import hashlib
import json
import os
import posixpath
import random
import re
import tempfile

import base
import families as F
import gen
import gql
import judge as J
import run as R
import scen
from families import _leaf


def enumerate_cases(module, consts=None, timeout=800, workers="1", check=True, walks=0, depth=10):
    """The cases a model prints, what they share, and its states. consts replaces constants of the .cfg file.
    walks: only that many random behaviours."""
    text = open(os.path.join(base.SPEC, module + ".cfg")).read()
    for k, v in (consts or {}).items():
        text, n = re.subn(r"(?m)^((?:CONSTANTS|CONSTANT)? *%s *(?:=|<-) *).*$" % k, lambda m: m.group(1) + str(v), text)
        assert n == 1, (module, k)
    os.makedirs(base.WORK, exist_ok=True)
    fd, path = tempfile.mkstemp(suffix=".cfg", dir=base.WORK)
    try:
        with os.fdopen(fd, "w") as f:
            f.write(text)
        code, out = J.tlc(module + ".tla", path, workers="1" if walks else workers, timeout=timeout,
                          extra=["-simulate", "num=%d" % walks, "-depth", str(depth), "-seed", str(base.SEED)] if walks else [])
    finally:
        os.unlink(path)
    if check and ("Error:" in out or "Progress:" not in out if walks else "No error has been found" not in out):
        raise base.ToolError("TLC on %s: %s" % (module, out[-1500:]))
    seen = {json.dumps(c, sort_keys=True): c for c in J.messages(out, "CASE")}
    given = J.messages(out, "GIVEN")
    return [seen[k] for k in sorted(seen)], given[0] if given else None, J.counts(out), out


# ------------------------------------------------------------------ configuration
def _told_apart():
    """Schemas that lead to different outputs."""
    out = []
    for t in ("String", "[Int]", "Boolean!", "[Date!]!", "Color", "[[Float]]"):
        S = F._simple_schema()
        S["types"]["Cat"]["f"]["name"] = gql.fld(t)
        out.append(S)
    return out


BROKEN = {"empty": "", "array": "[]", "null": "null", "cut": '{"globalTypesModuleName": "x"', "mistyped": '{"numThreads": "4"}',
          "negative": '{"numThreads": -1}', "trailing": '{} {}'}


def references(sc, c, cli):
    """The same effective configuration, given wholly on the command line, then wholly in a file."""
    e = c["eff"]
    kw = {"globals": e["globalsModule"], "node": e["nodeModule"], "schema": e["schema"], "threads": e["threads"],
          "importPrefix": e["importPrefix"][0] if e["importPrefix"] else None, "scalars": e["scalars"],
          "disableReadonly": not e["readonly"], "depr": e["depr"]}
    if e["scalars"] and e["scalarPrefix"]:
        kw["scalarPrefix"] = e["scalarPrefix"]
    root = cli["root"][0] if cli["root"] else None
    sc.run(R.cli(root=root, **kw))
    name = "ref.json" if c["at"] == ".qlcrc.json" else ".qlcrc.json"
    sc.put_conf(name, kw)
    sc.run(R.cli(root=root, config=None if name == ".qlcrc.json" else name))
    sc.remove(name)


def config(sc, r, seed):
    c = json.loads(seed)
    cli = {k: (v if isinstance(v, list) else v) for k, v in c["cli"].items()}
    opts = {k: v[0] for k, v in c["file"].items() if isinstance(v, list) and v}
    root = cli["root"][0] if cli["root"] else ""
    at = c["at"]
    d = posixpath.dirname(at)
    schemas = _told_apart()
    want = posixpath.join(root, "schema.json") if root else "schema.json"
    places = {want}
    if c["g"] == "schema":
        places |= {"schema.json"}
        if "schema" in opts:
            s = opts["schema"]
            p = s[3:] if s.startswith("/W/") else posixpath.normpath(posixpath.join(d, s))
            want = p
            places |= {p, posixpath.normpath(s[3:] if s.startswith("/W/") else s), posixpath.normpath(posixpath.join(root, s.replace("/W/", "")))}
        if cli["schema"]:
            want = cli["schema"][0]
            places |= {want, posixpath.normpath(posixpath.join(d, want)), posixpath.normpath(posixpath.join(root, want))}
        if c["lost"]:
            places.discard(want)
    for i, p in enumerate(sorted(places)):
        if not p.startswith(".."):
            sc.put_schema(p, schemas[(i + len(seed)) % len(schemas)], r)
    if c["g"] == "file":
        sc.put_dir("conf")
    under = lambda p: posixpath.join(root, p) if root else p
    sc.put_doc(under("lib/F.graphql"), {"op": "fragment", "name": "F", "on": "Cat", "vars": [], "sel": [_leaf("born", "born"), _leaf("name", "name")]}, [], r)
    for name, imp in (("q", "lib/F.graphql"), ("p", "@/lib/F.graphql"), ("t", "~/lib/F.graphql")):
        q = {"op": "query", "name": name.upper(), "on": "", "vars": [{"name": "f", "w": [], "n": "Filter", "pos": [0, 0]}],
             "sel": [_leaf("old", "old"), _leaf("when", "when"), _leaf("color", "color"),
                     {"k": "f", "name": "cat", "key": "cat", "args": "", "sel": [{"k": "s", "frag": "F"}]}]}
        sc.put_doc(under(name + ".graphql"), q, ['#import "%s"' % imp], r)
    if c["st"] == "ok" and not c["lost"] and c["g"] != "usage" and (cli["scalars"] or not cli["scalarPrefix"]):
        references(sc, c, cli)
    if at:
        st = c["st"]
        if st == "ok":
            sc.put_conf(at, opts)
        elif st in BROKEN:
            sc.put_conf(at, {}, raw=BROKEN[st])
        elif st == "dir":
            sc.put_dir(at)
        elif st == "unreadable":
            sc.put_raw(at, "{}", "unreadable", 0o000)
        elif st == "nonutf":
            sc.put_raw(at, b'{"globalTypesModuleName": "\xff"}', "nonutf")
    sc.run(cli)
    return {}


# ------------------------------------------------------------------ documents
def _schema_of(S):
    """A schema of the specification as one of the generators'."""
    f = lambda x: {"w": x["w"], "n": x["n"], "d": x["d"], "doc": "\n".join(x["doc"]) if x["doc"] else None}
    return {"types": {n: {"k": t["k"], "f": {a: f(b) for a, b in dict(t["f"]).items()}, "poss": t["poss"], "vals": t["vals"],
                          "doc": "\n".join(t["doc"]) if t["doc"] else None} for n, t in S.items()}}


def documents(sc, r, seed):
    """Documents of a model, each in its own file, with the fragments they spread."""
    b = json.loads(seed)
    sc.typed = b.get("typed", False)
    S = _schema_of(b["given"]["S"])
    frags = dict(b["given"].get("F") or {})
    sc.put_schema("schema.json", S, r)
    c = scen.rand_cli(r, "")
    if b.get("depr"):
        c["depr"] = True
    prefix = c["importPrefix"][0] if c["importPrefix"] else None
    where = {n: r.choice(["", "lib/", "lib/more/"]) + n + ".graphql" for n in sorted(frags)}

    def put(f, d):
        used = sorted(n for n in scen.spreads(d["sel"]) if n in where and n != d["name"])
        sc.put_doc(f, d, scen.header(r, [scen.import_path(r, "", prefix, f, where[n]) for n in used]), r)
    for n in sorted(frags):
        put(where[n], frags[n])
    for i, d in enumerate(b["docs"]):
        put("%s%d.graphql" % (r.choice(["", "d/"]), i), d)
    sc.run(c)
    if b.get("depr"):
        sc.run(dict(c, depr=False))
    return {}


# ------------------------------------------------------------------ input objects
def graphs(sc, r, seed):
    """Several cases of MCInputs at once, their type names told apart."""
    types = {}
    docs = []
    b = json.loads(seed)
    sc.typed = b.get("typed", False)
    for i, c in enumerate(b["docs"]):
        S = _schema_of(c["S"])["types"]
        ren = {n: n if n in ("Query", "Int") else "%s%d" % (n, i) for n in S}
        for t in S.values():
            for f in t["f"].values():
                f["n"] = ren[f["n"]]
        types.update({ren[n]: t for n, t in S.items()})
        for d in c["docs"]:
            for v in d["vars"]:
                v["n"] = ren[v["n"]]
            docs.append(d)
    sc.put_schema("schema.json", gql.with_builtins(types), r)
    for i, d in enumerate(docs):
        sc.put_doc("%d.graphql" % i, d, [], r)
    sc.run(scen.rand_cli(r, ""))
    return {}


# ------------------------------------------------------------------ imports
def scopes(sc, r, seed):
    """Several cases of MCImports, each in a directory of its own."""
    b = json.loads(seed)
    sc.put_schema("schema.json", _schema_of(b["given"]["S"]), r)
    c = scen.rand_cli(r, "")
    prefix = c["importPrefix"][0] if c["importPrefix"] else None
    for i, case in enumerate(b["docs"]):
        d = "%s%d/" % (r.choice(["", "d/"]), i)
        where = {n: d + (r.choice(["", "", "in/"]) if n != "q" else "") + n + ".graphql" for n in case["files"]}
        for n, f in case["files"].items():
            if f["st"] == "missing":
                continue
            h = [scen.import_path(r, "", prefix, where[n], where[m]) for m in f["imports"]]
            r.shuffle(h)
            h = scen.header(r, h)
            if f["st"] == "bad":
                sc.put_raw(where[n], "\n".join(h + ["fragment %s on Query { f%s" % (n, n)]), "bad")
            else:
                sc.put_doc(where[n], f["def"], h, r)
    sc.run(c)
    return {}


# ------------------------------------------------------------------ histories
def model_steps(edits, program="right", walks=0, depth=120, timeout=800):
    """The state graph of MCQlc between runs, as {state: [(label, state)]}, or random behaviours of it."""
    env = {"QLC_EDITS": edits, "QLC_PROGRAM": program}
    extra = ["-simulate", "num=%d" % walks, "-depth", str(depth), "-seed", str(base.SEED)] if walks else []
    code, out = J.tlc("MCQlc.tla", "MCQlcGraph.cfg", env, workers="1", timeout=timeout, extra=extra)
    if ("Error:" in out or "Progress:" not in out) if walks else "No error has been found" not in out:
        raise base.ToolError("TLC on MCQlc: %s" % out[-1500:])
    raw = {}
    first = None
    for a, l, b in J.messages(out, "EDGE"):
        first = a if first is None else first
        raw.setdefault(a, {})[(tuple(l), b)] = True

    def settle(s):
        # a run's steps follow from its start
        seen = set()
        while s in raw and s not in seen and all(l == ("step",) for l, _ in raw[s]):
            seen.add(s)
            s = next(iter(raw[s]))[1]
        return s
    ids = {first: 0}
    edges = {}
    for a, es in raw.items():
        if all(l == ("step",) for l, _ in es):
            continue
        x = ids.setdefault(a, len(ids))
        for l, b in es:
            if l != ("step",):
                edges.setdefault(x, []).append((0, l, ids.setdefault(settle(b), len(ids))))
    return {k: sorted(set((l, l, b) for _, l, b in v)) for k, v in edges.items()}, J.messages(out, "GIVEN")[0], J.counts(out), out


def steps(sc, r, seed):
    """A history of MCQlc on the real program."""
    b = json.loads(seed)
    g = b["given"]
    prefix = r.choice(["", "", "sub/"])
    kw = {"root": "sub"} if prefix else {}
    if r.random() < .3:
        kw["threads"] = r.choice([1, 2, 4])
    for step in b["steps"]:
        what, v = step[0], step[-1]
        if what == "run":
            sc.run(R.cli(**kw))
        elif what == "doc":
            if v == "none":
                sc.remove(prefix + "q.graphql")
            elif v == "cut":
                sc.put_raw(prefix + "q.graphql", '#import "./A.graphql"\nquery Q {', "bad")
            else:
                sc.put_doc(prefix + "q.graphql", copy.deepcopy(g["doc"][v]), ['#import "./A.graphql"'] if v == "uses" else [])
        elif what == "frag":
            if v == "none":
                sc.remove(prefix + "A.graphql")
            else:
                sc.put_doc(prefix + "A.graphql", copy.deepcopy(g["frag"][v]), [])
        elif what == "schema":
            if v == "none":
                sc.remove(prefix + "schema.json")
            elif v == "broken":
                sc.put_raw(prefix + "schema.json", '{"data": {', "bad")
            else:
                sc.put_schema(prefix + "schema.json", _schema_of(g["schema"][v]), random.Random(v))
        elif what == "conf":
            if v == "none":
                sc.remove(".qlcrc.json")
            elif v == "broken":
                sc.put_conf(".qlcrc.json", {}, raw="{")
            else:
                sc.put_conf(".qlcrc.json", {"disableReadonly": True})
        elif what == "overwrite":
            if os.path.exists(sc.abs(prefix + v)):
                sc.put_other(prefix + v, "// by hand\n")
        elif what == "drop":
            if os.path.exists(sc.abs(prefix + v)):
                sc.remove(prefix + v)
    return {}


# ------------------------------------------------------------------ schemas
def _plain(v):
    """A JSON value of the specification."""
    j = v["j"]
    return None if j == "null" else 3 if j == "num" else v["b"] if j == "bool" else v["s"] if j == "str" else \
        [_plain(x) for x in v["a"]] if j == "arr" else {k: _plain(x) for k, x in dict(v["m"]).items()}


def _change(j, path, how):
    at = lambda s: s[0] if s[0] else s[1] - 1
    x = j
    for s in path[:-1]:
        x = x[at(s)]
    if how == "remove":
        del x[at(path[-1])]
        return j
    old = x[at(path[-1])] if path else j
    new = {"null": None, "num": 3, "str": "WHAT", "arr": [], "obj": {}, "true": True}.get(how)
    if how == "extra":
        new = dict({"extra": [None, "x"]}, **old) if len(path) % 2 else dict(old, extra=[None, "x"])
    elif how == "reverse":
        new = old[::-1]
    if not path:
        return new
    x[at(path[-1])] = new
    return j


SHOWN = [({"op": "query", "name": "Q", "on": "", "vars": [{"name": "c", "w": [], "n": "C", "pos": [0, 0]}, {"name": "v", "w": ["N", "L"], "n": "In", "pos": [0, 0]}],
           "sel": [_leaf("a", "a"), _leaf("c", "c"),
                   {"k": "f", "name": "i", "key": "i", "args": "", "sel": [_leaf("__typename"), _leaf("n", "n")]},
                   {"k": "f", "name": "u", "key": "u", "args": "", "sel": [_leaf("__typename"), {"k": "i", "on": "O", "sel": [_leaf("n", "n")]}]}]}),
         ({"op": "query", "name": "P", "on": "", "vars": [], "sel": [_leaf("a", "a")]}),
         ({"op": "fragment", "name": "F", "on": "I", "vars": [], "sel": [_leaf("n", "n")]})]


def schemas(sc, r, seed):
    """Changed introspection results, one after the other."""
    b = json.loads(seed)
    for i, d in enumerate(copy.deepcopy(SHOWN)):
        sc.put_doc(r.choice(["", "d/"]) + "%d.graphql" % i, d, [], r)
    c = scen.rand_cli(r, "")
    for x in b["docs"]:
        j = _plain(b["given"]["base"])
        for e in x["edits"]:
            j = _change(j, e["p"], e["c"])
        text = json.dumps(j, indent=r.choice([None, None, 1]))
        if x["ok"]:
            sc.put_schema("schema.json", _schema_of(x["S"]), text=text)
        else:
            sc.put_schema("schema.json", None, text=text, st="bad")
        sc.run(c)
    return {}


# ------------------------------------------------------------------ directory trees
def trees(sc, r, seed):
    """Cases of MCTree side by side: a run on each, then one on all of them."""
    b = json.loads(seed)
    sc.put_schema("schema.json", F._simple_schema(r), r)
    sc.put_doc("out/o.graphql", F._simple_doc(r, "Out"), [], r)
    n = 0
    for i, c in enumerate(b["docs"]):
        root = "c%d" % i
        at = lambda p: root + p[4:] if p == "root" or p.startswith("root/") else p
        for e in sorted(c["entries"], key=lambda e: (e["k"] != "dir", e["p"])):
            p = at(e["p"])
            if e["k"] == "dir":
                sc.put_dir(p)
            elif e["k"] == "link":
                sc.put_link(p, posixpath.relpath(at(e["to"]), posixpath.dirname(p)))
            elif e["k"] == "special":
                sc.put_fifo(p)
            elif p.endswith(".graphql") and posixpath.basename(p) != ".graphql":
                n += 1
                sc.put_doc(p, F._simple_doc(r, "Op%d" % n, valid=r.random() < .9), [], r)
            else:
                sc.put_other(p, r.choice(["query Z { __typename }\n", "old\n"]))
    kw = {"schema": "schema.json", "threads": r.choice([None, 1, 2, 8]), "globals": r.choice([None, "g.ts", "./gg"])}
    for i in range(len(b["docs"])):
        sc.run(R.cli(root=r.choice(["c%d", "./c%d", "c%d/", "c%d/../c%d", "out/../c%d", "/W/c%d"]).replace("%d", str(i)), **kw))
    sc.run(R.cli(root=r.choice([None, ".", "./"]), **kw))
    return {}


# ------------------------------------------------------------------ faults
def combined_faults(sc, r, seed):
    """Cases of MCFaults, each in a directory of its own and with a run of its own."""
    b = json.loads(seed)
    sc.put_schema("schema.json", _schema_of(b["given"]["S"]), r)
    kw = {"schema": "schema.json", "threads": r.choice([None, 1, 2, 8])}
    for i, c in enumerate(b["docs"]):
        root = "c%d/" % i
        sc.put_dir(root + "s")
        for n, f in (("a", root + "a.graphql"), ("b", root + "s/b.graphql")):
            st = c[n]
            out = f + ".d.ts"
            if st == "gone":
                continue
            if st == "cut":
                sc.put_raw(f, r.choice(["query {", "query A { x", "not graphql", "query A { x } query B { x }", ""]), "bad")
            elif st == "unreadable":
                sc.put_raw(f, "query A { x }", "unreadable", 0o000)
            elif st == "nonutf":
                sc.put_raw(f, b"query A { x } # \xff\xfe\n", "nonutf")
            else:
                sc.put_doc(f, copy.deepcopy(b["given"]["def"][st][n]), ['#import "./missing.graphql"'] if st == "badimport" else [], r)
            if st in ("outdir", "both"):
                sc.put_dir(out)
            elif st == "outlocked":
                sc.put_raw(out, "locked\n", "readonly", 0o444)
            elif c["earlier"]:
                sc.put_other(out, "earlier\n")
        if c["g"] == "blocked":
            sc.put_dir(root + "g.ts")
        elif c["g"] == "locked":
            sc.put_raw(root + "g.ts", "locked\n", "readonly", 0o444)
        if c["sub"] == "unlistable":
            sc.put_dir(root + "s", "unlistable")
        sc.run(R.cli(root="c%d" % i, globals="none/g" if c["g"] == "nodir" else "g", **kw))
    return {}


# ------------------------------------------------------------------ descriptions
def descriptions(sc, r, seed):
    """Descriptions of MCText on fields, input fields and enums; then the same without any."""
    b = json.loads(seed)
    texts = ["".join({"n": "\n"}.get(c, c) for c in x["t"]) for x in b["docs"]]
    f = lambda i, n: {"w": [], "n": n, "d": i % 3 == 0, "doc": texts[i]}
    name = lambda i, t: t + "x%d" % i
    types = {"Query": {"k": "OBJECT", "f": {name(i, "f"): f(i, r.choice(["Int", "String"])) for i in range(len(texts))}, "poss": [], "vals": [], "doc": None},
             "In": {"k": "INPUT_OBJECT", "f": {name(i, "g"): dict(f(i, "Int"), d=False) for i in range(len(texts))}, "poss": [], "vals": [], "doc": r.choice(texts)}}
    for i in range(len(texts)):
        types[name(i, "E")] = {"k": "ENUM", "f": {}, "poss": [], "vals": ["ONE", "TWO"], "doc": texts[i]}
    S = {"types": gql.with_builtins(types)["types"]}
    sc.put_schema("schema.json", S, r)
    leaves = [_leaf(name(i, "f"), name(i, "f")) for i in range(len(texts))]
    r.shuffle(leaves)
    sc.put_doc("all.graphql", {"op": "query", "name": "All", "on": "", "vars": [{"name": "v", "w": [], "n": "In", "pos": [0, 0]}], "sel": leaves}, [], r)
    sc.put_doc("enums.graphql", {"op": "query", "name": "Enums", "on": "", "sel": [_leaf("__typename")],
                                 "vars": [{"name": "v%d" % i, "w": [], "n": name(i, "E"), "pos": [0, 0]} for i in range(len(texts))]}, [], r)
    c = scen.rand_cli(r, "")
    sc.run(c)
    sc.put_schema("schema.json", R.undocumented(S), r)
    sc.run(c)
    return {}


# ------------------------------------------------------------------ names
def near_names(sc, r, seed):
    """Names of MCNames asked for where others are declared, as fields and as fragments."""
    sc.explain = True
    b = json.loads(seed)
    names = [x["n"] for x in b["docs"]]
    r.shuffle(names)
    k = r.choice([len(names) // 2, len(names) // 2, 1, len(names) - 3])
    have, ask = sorted(names[:k]), names[k:]
    sc.put_schema("schema.json", gql.with_builtins({"Query": {"k": "OBJECT", "poss": [], "vals": [], "doc": None,
                  "f": {n: {"w": [], "n": "Int", "d": r.random() < .1, "doc": None} for n in have}}}), r)
    frags = r.sample(have, min(len(have), 12))
    for i, n in enumerate(frags):
        sc.put_doc("lib/%d.graphql" % i, {"op": "fragment", "name": n, "on": "Query", "vars": [], "sel": [_leaf("x%d" % i, n)]}, [], r)
    for i in range(0, len(ask), 12):
        sel = [_leaf("k%d" % j, n) if r.random() < .8 else {"k": "s", "frag": n} for j, n in enumerate(ask[i:i + 12])]
        d = {"op": "query", "name": "Q%d" % i, "on": "", "vars": [], "sel": sel}
        sc.put_doc("q%d.graphql" % i, d, ['#import "lib/%d.graphql"' % j for j in range(len(frags))], r)
    sc.run(scen.rand_cli(r, ""))
    return {}
