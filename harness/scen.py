"""Scenario generators shared by the checks."""
import posixpath
import random

import gen
import run as R


def import_path(r, root, prefix, frm, to):
    """A spelling of the import of file `to` in file `frm` (paths relative to the working directory)."""
    inside = root == "" or to.startswith(root + "/")
    styles = ["rel"]
    below = to[len(root) + 1:] if root else to
    if inside:
        if not below.startswith(".") and not (prefix and below.startswith(prefix)):
            styles.append("root")
        if prefix is not None:
            styles.append("prefix")
    s = r.choice(styles)
    if s == "root":
        return below
    if s == "prefix":
        return prefix + below
    p = posixpath.relpath(to, posixpath.dirname(frm) or ".")
    if not p.startswith("."):
        p = "./" + p
    if r.random() < .15 or prefix and p.startswith(prefix):
        p = "./" + p
    return p


PREFIXES = ["@/", "~/", "#root/", "./@/", "../", ".root/", "src", "/"]


def header(r, paths, noise=True):
    out = []
    for p in paths:
        while noise and r.random() < .25:
            out.append(r.choice(["# a comment", "", "   ", "#", "#import 'single.graphql'", "# import \"x.graphql\""]))
        out.append('#import "%s"%s' % (p, r.choice(["", "", "", " ", " # why", " # " + "\u00e9\u4e2d" * 40]) if noise else ""))
    while noise and r.random() < .15:
        out.append(r.choice(["# more", "", " "]))
    return out


def spreads(sel):
    s = set()
    for it in sel:
        if it["k"] == "s":
            s.add(it["frag"])
        else:
            s |= spreads(it["sel"])
    return s


def rand_cli(r, root, scalars=None):
    kw = {}
    if root:
        kw["root"] = root
    if r.random() < .5 if scalars is None else scalars:
        kw["scalars"] = True
        if r.random() < .5:
            kw["scalarPrefix"] = r.choice(["Scalar", "GQL_", "S", "D", "Date", "J", "U", "UUID", "Custom"])
    if r.random() < .3:
        kw["disableReadonly"] = True
    if r.random() < .5:
        kw["depr"] = True
    if r.random() < .3:
        kw["node"] = r.choice(["../node", "my-nodes", "@x/y/z", "./node"])
    if r.random() < .3:
        kw["globals"] = r.choice(["globals", "types.d.ts", "g-types.ts", "__gen", "./types"])
    if r.random() < .4:
        kw["importPrefix"] = r.choice(PREFIXES)
    if r.random() < .5:
        kw["threads"] = r.choice([1, 2, 3, 8])
    return R.cli(**kw)


def world(sc, r, S, c, nfrag=4, ndoc=8, depth=3, budget=5, outside=True, keys=None, dirs=None):
    """Fragments and operations that use them, all valid by construction (up to merge conflicts,
    which the specification recognises)."""
    root = sc.rel(c["root"][0]) if c["root"] else ""
    prefix = c["importPrefix"][0] if c["importPrefix"] else None
    under = lambda p: posixpath.join(root, p) if root else p
    keys = keys or gen.Keys(r)
    frags = {}
    where = {}
    dirs = dirs or ["", "frags", "a/b", "a"]
    texts = {}
    for i in range(nfrag):
        name = r.choice(["Part", "Info", "frag", "Details"]) + str(i)
        d = gen.fragment(r, S, name, dict(frags) if r.random() < .7 else {}, max(1, depth - 1), budget, keys)
        f = posixpath.join(r.choice(dirs), name + ".graphql")
        f = under(f) if not outside or not root or r.random() < .8 else posixpath.join("shared", name + ".graphql")
        # the same file name in several directories
        same = posixpath.join(posixpath.dirname(f), "fragment.graphql")
        if r.random() < .4 and same not in where.values():
            f = same
        frags[name] = d["on"]
        where[name] = f
        h = header(r, [import_path(r, root, prefix, f, where[n]) for n in sorted(spreads(d["sel"]))])
        texts[f] = sc.put_doc(f, d, h, r)
    for i in range(ndoc):
        d = gen.operation(r, S, "Op%d" % i, frags, depth, budget, keys)
        f = under(posixpath.join(r.choice(dirs), "op%d.graphql" % i))
        h = header(r, [import_path(r, root, prefix, f, where[n]) for n in sorted(spreads(d["sel"]))])
        texts[f] = sc.put_doc(f, d, h, r)
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        decoy(sc, r, S, keys)
    return texts


def decoy(sc, r, S, keys=None):
    """A fragment of the same file name (and mostly of the same name) as one that documents import, at
    another place, where nobody imports it from."""
    frs = sorted(f for f, s in sc.tree.items() if s["st"] == "ok" and s.get("def", {}).get("op") == "fragment")
    docs = sorted(f for f, s in sc.tree.items() if s["st"] == "ok" and "def" in s)
    if not frs:
        return None
    g = r.choice(frs)
    wanted = {posixpath.normpath(posixpath.join(posixpath.dirname(f), p)) for f in docs for p in imported(sc.tree[f]["lines"])} | \
        {posixpath.normpath(p.lstrip("./@~#")) for f in docs for p in imported(sc.tree[f]["lines"])}
    at = posixpath.join(posixpath.dirname(r.choice(docs)), posixpath.basename(g)) if r.random() < .7 else \
        posixpath.join(posixpath.dirname(r.choice(docs)), r.choice(["near", "shared", "frags"]), posixpath.basename(g))
    if at in sc.tree or at in wanted or any(at.endswith("/" + w) for w in wanted):
        return None
    was = sc.tree[g]["def"]
    d = gen.fragment(r, S, was["name"] if r.random() < .8 else "Decoy", {}, 1, 3, keys, on=was["on"] if r.random() < .8 else None) \
        if was["on"] in S["types"] else None
    if d:
        sc.put_doc(at, d, [], r)
    return at


def imported(lines):
    return [l[9:l.rfind('"')] for l in lines if l.startswith('#import "')]
