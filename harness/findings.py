"""The histories of the known findings (known_findings.txt): each is run on every check of its property."""
import os
import re

import base
import families as F
import gql
import judge as J
import run as R


def _doc(name, sel, on=""):
    return {"op": "query", "name": name, "on": on, "vars": [], "sel": sel}


def _sub(name, sel):
    return {"k": "f", "name": name, "key": name, "args": "", "sel": sel}


def nested_names_collide(sc, r):
    S = F._simple_schema()
    S["types"]["Query"]["f"].update({"a": gql.fld("A"), "a_b": gql.fld("B")})
    S["types"]["A"] = {"k": "OBJECT", "f": {"b_c": gql.fld("Cat")}, "poss": [], "vals": [], "doc": None}
    S["types"]["B"] = {"k": "OBJECT", "f": {"c": gql.fld("Cat")}, "poss": [], "vals": [], "doc": None}
    sc.put_schema("schema.json", S, r)
    sc.put_doc("q.graphql", _doc("Q", [_sub("a", [_sub("b_c", [F._leaf("name", "name")])]), _sub("a_b", [_sub("c", [F._leaf("name", "name")])])]), [], r)
    sc.run(R.cli())


def operation_named_like_enum(sc, r):
    S = F._simple_schema()
    sc.put_schema("schema.json", S, r)
    sc.put_doc("q.graphql", _doc("Color", [F._leaf("color", "color")]), [], r)
    sc.run(R.cli())


def operation_named_like_keyword(sc, r):
    S = F._simple_schema()
    sc.typed = True
    sc.put_schema("schema.json", S, r)
    sc.put_doc("q.graphql", _doc("string", [F._leaf("color", "color")]), [], r)
    sc.run(R.cli())


def finding(sc, r, seed):
    globals()[seed.replace("-", "_")](sc, r)
    return {}


LINE = re.compile(r"^finding: property=(\S+) history=(\S+) clauses=(\S+) (.*)$")


def listed(pid):
    if not os.path.exists(base.KNOWN):
        return []
    return [(m.group(2), set(m.group(3).split(",")), m.group(4)) for m in map(LINE.match, open(base.KNOWN)) if m and m.group(1) == pid]


def run(chk, eng):
    """Runs the listed histories of the check's property. Anything else that is wrong with them is a violation."""
    for name, clauses, what in listed(chk.pid):
        res = eng.run([("findings", "finding", name)])
        (sid, (task, ev, log, info)), = res.items()
        bads, st, gen, failed, tally = J.judge([ev], ids=[sid], module="QlcTrace")
        chk.add("known_findings_tried")
        got = {x["c"] for b in bads for x in b["bad"] if x["p"] == chk.pid}
        if failed or got - clauses:
            chk.violation("%s: %s %s" % (sid, sorted(got), str(failed)[-300:]), {"family": "finding", "seed": name, "history": log})
        elif got:
            chk.known_finding("%s: %s" % (name, what))
