"""The checks, one per property."""
import json
import os
import sys
import time

import base
import engine
import findings
from base import Check, scale, SEED, THOROUGH

# histories per quick run, by property and family
PLAN = {
    "C02": {"tree": 360, "faults": 60, "config": 60, "history": 40, "large": 5},
    "C03": {"faults": 400, "many": 16, "mistakes": 60, "tree": 60, "imports": 60},
    "C04": {"world": 180, "abstract": 180, "twins": 40, "history": 30, "variables": 30},
    "C05": {"wrappers": 300, "world": 60, "inputs": 100},
    "C06": {"abstract": 300, "twins": 90, "world": 80},
    "C07": {"variables": 400, "wrappers": 80, "mistakes": 40},
    "C08": {"inputs": 400, "world": 60, "history": 40, "variables": 40},
    "C09": {"imports": 420, "chains": 15, "mistakes": 60, "cycles": 50},
    "C10": {"cycles": 200, "fuzz": 250, "ghosts": 150, "ingest": 20, "config": 60, "chains": 3, "depths": 5},
    "C11": {"mistakes": 400, "imports": 60, "variables": 40},
    "C12": {"ingest": 130},
    "C13": {"config": 300, "world": 60},
    "C14": {"history": 200, "ingest": 40, "faults": 60, "inputs": 60},
    "C15": {"world": 160, "abstract": 120, "inputs": 80, "config": 80},
    "C16": {"evil": 300, "world": 50, "inputs": 50},
    "C17": {"deprecations": 250, "mistakes": 100, "world": 60},
    "C18": {"world": 120, "wrappers": 100, "inputs": 100, "config": 100},
    "C19": {"world": 160, "abstract": 220, "variables": 60},
    "C22": {"explain": 350},
    "C23": {"typed": 200},
}


def run_traces(chk, eng, plan, factor=1, only=None):
    tasks = [("families", fam, "%s.%d" % (SEED, i)) for fam, n in plan.items() for i in range(n * factor)]
    return engine.traces(chk, eng, tasks, only=only)


def thorough_traces(chk, eng, plan, until):
    """Batches of new seeds until the time is used."""
    batch = 0
    while time.time() - chk.t0 < until and len(chk.violations) < 20:
        batch += 1
        tasks = [("families", fam, "%s.t%d.%d" % (SEED, batch, i)) for fam, n in plan.items() for i in range(n)]
        engine.traces(chk, eng, tasks)
    chk.cov["batches"] = batch


# Models whose cases are replayed on the program: (model, replay, cases per history, the quick run's [(constants,
# how many random behaviours instead of all)], the thorough run's); a negative number of cases is that of histories with all of them
SELECT = ("MCSelect", "documents", 100, [({"Most": 2}, 0), ({"Most": 7, "Clean": "TRUE"}, 40)],
          [({"Most": 3}, 0), ({"Most": 9, "Clean": "TRUE"}, 1500)])
TWINS = ("MCTwins", "documents", 100, [({}, 0)], [({"Menu": "All"}, 0)])
WRAP = ("MCWrap", "documents", 110, [({"Deep": 4}, 0)], [({"Deep": 3}, 0), ({"Deep": 5}, 0)])
INPUTS = ("MCInputs", "graphs", 96, [({}, 0)], [({}, 0), ({"Types": "Triple", "Two": "FALSE"}, 0)])
SCOPES = ("MCImports", "scopes", 60, [({}, 0), ({"Files": "Three"}, 25)], [({"Files": "Two"}, 0), ({"Files": "Three"}, 1000)])
INGEST = ("MCIngest", "schemas", 30, [({}, 0)], [({}, 0), ({"Most": 3}, 3000)])
TREE = ("MCTree", "trees", 12, [({}, 0)], [({}, 0)])
FAULTS = ("MCFaults", "combined_faults", 12, [({}, 0)], [({}, 0)])
TEXTS = ("MCText", "descriptions", 100, [({}, 0)], [({}, 0), ({"Most": 7}, 0), ({"Most": 6, "Alphabet": '{"*", "/", "n", " ", "b"}'}, 0)])
WARN = ("MCWarn", "documents", 100, [({"Most": 2}, 0), ({"Most": 6}, 12)], [({"Most": 3}, 0), ({"Most": 7}, 1500)])
NAMES = ("MCNames", "near_names", -10, [({"Most": 3}, 0), ({"Most": 4, "Alphabet": '{"a", "b"}'}, 0)],
         [({}, 0), ({"Most": 6, "Alphabet": '{"a", "b"}'}, 0)])
CASES = {"C22": [NAMES], "C17": [WARN], "C16": [TEXTS], "C02": [TREE], "C03": [FAULTS], "C12": [INGEST], "C09": [SCOPES], "C10": [SCOPES], "C08": [INPUTS], "C05": [WRAP], "C07": [WRAP], "C18": [WRAP, TWINS], "C13": [("MCConfig", "config", 0, [({}, 0)], [({}, 0)])],
         "C04": [SELECT, TWINS], "C06": [SELECT, TWINS], "C11": [SELECT], "C15": [SELECT], "C19": [SELECT],
         "C23": [SELECT, WRAP, INPUTS]}


def run_cases(chk, eng, pid):
    """Enumerates the cases of the property's models and replays them."""
    import cases
    import random
    for module, fam, batch, quick, deep in CASES.get(pid, []):
        for consts, walks in deep if THOROUGH else quick:
            cs, given, (st, gn), out = cases.enumerate_cases(module, consts, walks=walks)
            chk.add("states", st)
            chk.add("transitions", gn)
            random.Random("%s/%s" % (module, SEED)).shuffle(cs)
            chk.cov.setdefault("cases", {})[module + "".join(" %s=%s" % x for x in consts.items())] = \
                "%d replayed, %s" % (len(cs), "of %d random behaviours" % walks if walks else "all there are")
            if batch < 0:
                seeds = [{"docs": cs, "n": i} for i in range(-batch)]
            elif batch:
                # a few alone, the others many at a time
                k = min(len(cs) // 4, 24)
                more = {"C23": {"typed": True}, "C17": {"depr": True}}.get(pid, {})
                seeds = [dict(more, given=given, docs=x) for x in [[c] for c in cs[:k]] + [cs[i:i + batch] for i in range(k, len(cs), batch)]]
            else:
                seeds = cs
            engine.traces(chk, eng, [("cases", fam, json.dumps(c, sort_keys=True)) for c in seeds])


# Histories of MCQlc: which edits are made, for which properties; every step of the model is replayed
HISTORIES = {"C14": ["scope"], "C12": ["refusal"]}
HISTORIES_DEEP = {"C14": ["scope", "refusal"], "C02": ["scope"], "C12": ["refusal"], "C03": ["refusal"]}
WRONG = ["old-fragments", "fragments-unwritten", "accepts", "silent", "removes-stale", "keeps-fresh", "keeps-existing", "appends",
         "always-globals", "globals-once", "always-succeeds"]


# Wrong compilers and programs, each of which TLC has to find at odds with the specification
WRONG_MODELS = {"C04": [("MCSelect", {"Variant": '"%s"' % v}) for v in ("first-wins", "no-spreads")],
                "C06": [("MCSelect", {"Variant": '"%s"' % v}) for v in ("share-by-keys", "drop-last")] + [("MCTwins", {"Variant": '"%s"' % v}) for v in ("share-by-keys", "drop-last")],
                "C02": [("MCTree", {"Variant": '"%s"' % v}) for v in ("follows-links", "flat", "skips-hidden", "suffix-means-file", "first-dot", "any-suffix", "anything-named-so")],
                "C03": [("MCFaults", {"Program": '"%s"' % v}) for v in
                        ("stops", "stops-on-unreadable", "truncates", "writes-anyway", "first-mistake-only", "silent-write", "silent-read", "silent-list", "silent-globals",
                         "no-globals-on-failure", "always-succeeds", "forgives-write", "counts-documents")],
                "C16": [("MCText", {"Variant": '"%s"' % v}) for v in ("as-is", "once", "opening-only", "whole-lines", "tight")],
                "C17": [("MCWarn", {"Variant": '"%s"' % v}) for v in ("foreign", "nearest", "interface")],
                "C22": [("MCNames", {"Variant": '"%s"' % v}) for v in ("restricted", "levenshtein")],
                "C12": [("MCIngest", {"Variant": '"%s"' % v}) for v in ("bare-interfaces", "bare-enums", "unread-inputs")],
                "C05": [("MCWrap", {"Variant": '"lose-inner"'})],
                "C24": [("Release", {"Variant": '"%s"' % v}) for v in ("goes-on", "sums-first", "any-version")]}


def run_wrong(chk, pid):
    import cases
    import judge
    for module, consts in WRONG_MODELS.get(pid, []):
        out = cases.enumerate_cases(module, consts, check=False)[3]
        if "is violated" not in out:
            raise base.ToolError("TLC finds nothing wrong with %s %s" % (module, consts))
        chk.add("wrong_models_refuted")
    for v in WRONG if pid == "C14" else []:
        code, out = judge.tlc("MCQlc.tla", "MCQlc.cfg", {"QLC_EDITS": "all", "QLC_PROGRAM": v}, workers=8)
        if "Invariant NoClauseBroken is violated" not in out:
            raise base.ToolError("TLC finds nothing wrong with the program %s: %s" % (v, out[-800:]))
        chk.add("wrong_models_refuted")


def run_histories(chk, eng, pid):
    import cases
    import pool
    import random
    for edits in (HISTORIES_DEEP if THOROUGH else HISTORIES).get(pid, []):
        graphs = [(edits, 0)] + ([("all", 400)] if THOROUGH else [])
        for e, walks in graphs:
            edges, given, (st, gn), out = cases.model_steps(e, walks=walks)
            chk.add("states", st)
            chk.add("transitions", gn)
            paths, total = pool.cover(edges, random.Random(SEED), length=160)
            steps = sum(len(p) for p in paths)
            chk.cov.setdefault("model_steps_replayed", {})[e] = "all %d of MCQlc between runs, in %d histories of %d steps" % (total, len(paths), steps)
            engine.traces(chk, eng, [("cases", "steps", json.dumps({"given": given, "steps": [l for _, l, _, _ in p]})) for p in paths])


def traced(pid):
    chk = Check(pid)
    with engine.Engine() as eng:
        run_cases(chk, eng, pid)
        run_histories(chk, eng, pid)
        findings.run(chk, eng)
        if THOROUGH:
            run_wrong(chk, pid)
        run_traces(chk, eng, PLAN[pid])
        if THOROUGH:
            thorough_traces(chk, eng, PLAN[pid], 700)
    return chk.finish()


# the worker protocol: exhaustive models (tree, threads, with liveness), graphs whose every step is
# replayed (tree, threads, most paths), wrong protocols whose losing schedules are replayed
POOL_MODELS = [("empty", 1, True), ("flat", 1, True), ("flat", 2, True), ("chain", 2, True), ("mixed", 2, True), ("big", 2, True),
               ("empty", 3, True), ("flat", 3, False)]
POOL_MODELS_DEEP = [("wide", 2, True), ("flat", 3, True), ("chain", 3, True), ("mixed", 3, True), ("wide", 3, False), ("big", 3, False),
                    ("empty", 4, True), ("flat", 4, False)]
POOL_COVER = [("empty", 1, 99), ("flat", 1, 99), ("empty", 2, 999), ("flat", 2, 999), ("chain", 2, 999), ("empty", 3, 300)]
POOL_COVER_DEEP = [("mixed", 2, 9999), ("wide", 2, 9999), ("big", 2, 9999), ("empty", 3, 9999), ("flat", 3, 5000)]
POOL_WRONG = [("chain", 2, "no-pending-check", 160), ("mixed", 2, "no-pending-check", 120), ("flat", 3, "no-pending-check", 240)]
POOL_WRONG_DEEP = [("chain", 2, "no-pending-check", 3000), ("mixed", 2, "no-pending-check", 2000), ("flat", 3, "no-pending-check", 4000),
                   ("flat", 2, "late-count", 1000), ("chain", 2, "late-count", 1000)]


def check_C01():
    import tempfile
    os.makedirs(base.WORK, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix="pool-", dir=base.WORK) as d:
        os.environ["QLC_POOL_GRAPHS"] = d
        return schedules()


def schedules():
    import pool
    from concurrent.futures import ThreadPoolExecutor
    chk = Check("C01")
    models = POOL_MODELS + (POOL_MODELS_DEEP if THOROUGH else [])
    covers = POOL_COVER + (POOL_COVER_DEEP if THOROUGH else [])
    wrong = POOL_WRONG_DEEP if THOROUGH else POOL_WRONG
    proof = pool.start_proof() if THOROUGH else None
    with engine.Engine(hooked=True) as eng:
        graphs = sorted({(s, t, "code") for s, t, _ in covers} | {(s, t, v) for s, t, v, _ in wrong})
        with ThreadPoolExecutor(4) as ex:
            ms = list(ex.map(lambda m: (m, pool.explore(m[0], m[1], live=m[2])), models))
            if eng.hooked:
                list(ex.map(lambda g: pool.explore(g[0], g[1], g[2], dump=True), graphs))
        done = {}
        for (shape, threads, live), (code, st, gn, out) in ms:
            if "No error has been found" not in out:
                raise base.ToolError("TLC on Pool %s/%d: %s" % (shape, threads, out[-1500:]))
            done["%s/%d" % (shape, threads)] = {"states": st, "liveness": live}
            chk.add("states", st)
            chk.add("transitions", gn)
        chk.cov["pool_models"] = done
        n = scale(1, 6)
        tasks = [("pool", "free_schedules", "%s.%d" % (SEED, i)) for i in range(24 * n)]
        if eng.hooked:
            tasks += [("pool", "cover_family", "%s:%d:%d:8:%d" % (s, t, k, most)) for s, t, most in covers for k in range(8)]
            tasks += [("pool", "adversary", "%s:%d:%s:%d:8:%d" % (s, t, v, k, most)) for s, t, v, most in wrong for k in range(8)]
            tasks += [("pool", "random_schedules", "%s.%d" % (SEED, i)) for i in range(120 * n)]
        else:
            chk.cov["controlled"] = "the hooked build does not compile: schedules are left to the operating system"
        tasks += [("families", "large", "%s.%d" % (SEED, i)) for i in range(5 * n)]
        res = engine.traces(chk, eng, tasks)
        met = {}
        for sid, (task, ev, log, info) in res.items():
            for k in ("controlled_runs", "rescued", "different_recordings", "exact", "followed", "adversarial", "free_runs"):
                if info and k in info:
                    chk.add(k, info[k])
            if info and "met_set" in info:
                m = met.setdefault(info["model"], {}).setdefault(info["order"], [info["edges"], set()])
                m[1] |= info["met_set"]
        chk.cov["model_steps_replayed"] = {k: " + ".join("%d of %d" % (len(s), e) for e, s in v.values()) for k, v in met.items()}
        batch = 0
        while THOROUGH and eng.hooked and time.time() - chk.t0 < 750 and len(chk.violations) < 20:
            batch += 1
            res = engine.traces(chk, eng, [("pool", "random_schedules", "%s.t%d.%d" % (SEED, batch, i)) for i in range(600)])
            chk.add("controlled_runs", sum(x[3]["controlled_runs"] for x in res.values()))
    if proof:
        chk.cov["proof"] = pool.end_proof(proof, 860 - (time.time() - chk.t0))
    return chk.finish()


def npm_cases(chk, module, r, interesting, most):
    import json
    import npm
    cs, (st, gn) = npm.cases(module)
    chk.add("states", st)
    chk.add("transitions", gn)
    chk.cov["cases_in_model"] = len(cs)
    first = [c for c in cs if interesting(c)]
    rest = [c for c in cs if not interesting(c)]
    r.shuffle(rest)
    cs = first + rest[:most]
    chk.cov["cases_replayed"] = len(cs)
    return [json.dumps(c, sort_keys=True) for c in cs]


def check_C20():
    import random
    chk = Check("C20")
    main = lambda c: c["set"] == {"plat": "known", "bins": "dir", "dest": "free", "archive": "good"} and len(c["script"]) <= 2 \
        or c["set"]["plat"] == "known" and c["set"]["archive"] == "good" and len(c["script"]) <= 3 and \
        c["script"] and c["script"][-1] in ("full", "chunked", "untilclose")
    cs = npm_cases(chk, "PostInstall", random.Random(SEED), main, scale(420, 10 ** 6))
    with engine.Engine() as eng:
        engine.traces(chk, eng, [("npm", "install", c) for c in cs], module="NpmTrace")
    return chk.finish()


def check_C21():
    import random
    chk = Check("C21")
    cs = npm_cases(chk, "Fetch", random.Random(SEED), lambda c: c["set"]["endpoint"] in ("none", "bad", "down"), scale(420, 10 ** 6))
    with engine.Engine() as eng:
        engine.traces(chk, eng, [("npm", "fetch", c) for c in cs], module="NpmTrace")
        engine.traces(chk, eng, [("npm", "downloaded", "%s.%d" % (SEED, i)) for i in range(scale(60, 1500))], own=True)
    return chk.finish()


def check_C24():
    import cases
    chk = Check("C24")
    out = cases.enumerate_cases("Release", {})
    sets, (st, gn) = out[0], out[2]
    chk.add("states", st)
    chk.add("transitions", gn)
    if THOROUGH:
        run_wrong(chk, "C24")
    with engine.Engine() as eng:
        engine.traces(chk, eng, [("release", "release", json.dumps({"set": s, "n": i}, sort_keys=True))
                                 for s in sets for i in range(scale(1, 12))], module="ReleaseTrace")
    return chk.finish()


def main(pid):
    try:
        special = globals().get("check_" + pid)
        return special() if special else traced(pid)
    except base.ToolError as e:
        print("TOOL ERROR: %s" % e)
        return 3
