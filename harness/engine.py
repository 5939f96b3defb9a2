"""Runs families of scenarios in parallel, judges the recordings with TLC, reports."""
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

import base
import judge as J
import run as R
from base import ToolError

_st = {}


def _init(plain, hooked):
    _st["scratch"] = base.Scratch().__enter__()
    _st["bin"] = _st["scratch"].binary(plain)
    _st["hooked"] = _st["scratch"].binary(hooked) if hooked else None
    _st["proj"] = R.Projector()
    import atexit
    import multiprocessing.util as mu
    mu.Finalize(None, _done, exitpriority=10)


def _done():
    try:
        _st["proj"].close()
    finally:
        _st["scratch"].__exit__()


def _one(task):
    mod, fam, seed, keep = task
    ev = []
    sid = "%s-%s" % (fam, seed if "{" not in seed else R.sha(seed))
    try:
        m = importlib.import_module(mod)
        r = random.Random("%s/%s" % (fam, seed))
        sc = R.Scenario(sid, _st["scratch"].path, _st["bin"], _st["proj"], ev)
        sc.hooked = _st["hooked"]
        sc.keep = keep
        info = None
        try:
            info = getattr(m, fam)(sc, r, seed)
        except R.Enough:
            info = {"cut": 1}
        finally:
            sc.cleanup()
        return sid, task, ev, sc.log, info, None
    except Exception:
        return sid, task, ev, [], None, traceback.format_exc()


class Engine:
    def __init__(self, hooked=False):
        self.plain = base.build_plain()
        self.hooked = base.build_hooked() if hooked else None
        R.HANGS = mp.Array("i", 2)
        self.pool = mp.get_context("fork").Pool(base.JOBS, _init, (self.plain, self.hooked))

    def close(self):
        self.pool.close()
        self.pool.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def run(self, tasks, keep=False):
        """tasks: (module, family, seed). Returns {sid: (task, events, log, info)}."""
        out = {}
        for sid, task, ev, log, info, err in self.pool.imap_unordered(_one, [t + (keep,) for t in tasks], chunksize=1):
            if err:
                raise ToolError("scenario %s:\n%s" % (sid, err))
            out[sid] = (task[:3], ev, log, info)
        return {sid: out[sid] for sid in sorted(out)}


def counts(events):
    c = {"documents": 0, "runs": 0, "outputs": 0}
    for e in events:
        if e["e"] == "run":
            c["runs"] += 1
        elif e["e"] == "answer":
            c["answers"] = c.get("answers", 0) + 1
        elif e["e"] == "doc":
            c["documents"] += 1
            c["outputs"] += 1 if e["wrote"] else 0
    return c


def traces(chk, eng, tasks, only=None, module="QlcTrace", own=False):
    """Runs the families, judges the traces, reports the clauses of the check's property.
    own: whatever is wrong counts as this property's."""
    if not tasks:
        return {}
    t0 = time.time()
    res = eng.run(tasks)
    t1 = time.time()
    bads, st, gen, failed, tally = J.judge([r[1] for r in res.values()], ids=list(res), module=module)
    t2 = time.time()
    chk.add("states", st)
    chk.add("transitions", gen)
    chk.add("traces_validated_against_impl", len(res) - len(failed))
    for k, v in tally.items():
        chk.add(k, v)
    fams = {}
    for sid, (task, ev, log, info) in res.items():
        f = fams.setdefault(task[1] if task[0] == "families" else task[0] + "." + task[1], {"histories": 0})
        f["histories"] += 1
        for k, v in counts(ev).items():
            f[k] = f.get(k, 0) + v
    for k, v in fams.items():
        sums = chk.cov.setdefault("families", {}).setdefault(k, {})
        for x, n in v.items():
            sums[x] = sums.get(x, 0) + n
    chk.cov["record_s"] = round(chk.cov.get("record_s", 0) + t1 - t0, 1)
    chk.cov["judge_s"] = round(chk.cov.get("judge_s", 0) + t2 - t1, 1)
    mine = {}
    other = {}
    for b in bads:
        for x in b["bad"]:
            if (own or x["p"] == chk.pid) and (only is None or x["c"] in only):
                mine.setdefault(b["id"], []).append((x["c"], x["f"]))
            else:
                other[x["p"]] = other.get(x["p"], 0) + 1
    if other:
        chk.cov["clauses_of_other_properties"] = other
    for sid in failed:
        mine.setdefault(sid, []).append(("not-a-behaviour-of-the-specification", failed[sid][-300:]))
    cut = sum(1 for x in res.values() if x[3] and x[3].get("cut"))
    if cut:
        chk.add("histories_cut_short_after_hangs", cut)
    for i in range(2):
        R.HANGS[i] = 0
    # show what happened in the first few
    for n, sid in enumerate(sorted(mine)):
        task = res[sid][0]
        if n < 5 and not any("hang" in c or "no-end" in c for c, f in mine[sid]):
            again = eng.run([task], keep=True)[sid]
            detail = {"family": task[1], "seed": task[2], "clauses": mine[sid], "history": again[2]}
        else:
            detail = {"family": task[1], "seed": task[2], "clauses": mine[sid]}
        chk.violation("%s: %s" % (sid, "; ".join("%s %s" % c for c in mine[sid][:4])), detail)
    for sid, (task, ev, log, info) in list(res.items())[:1]:
        chk.sample({"history": sid, "events": [e["e"] + (":" + e["f"] if "f" in e else "") for e in ev][:25]})
    return res
