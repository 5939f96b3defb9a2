"""Schedules of the worker pool: from the states of spec/Pool.tla, and random ones."""
import collections
import json
import os
import posixpath
import pickle
import random
import re
import shutil
import signal
import subprocess
import tempfile

import base
import gen
import gql
import judge as J
import run as R
import scen
import families as F

TREES = {
    "empty": {"r": []},
    "flat": {"r": ["a", "b"]},
    "chain": {"r": ["s"], "s": ["a", "b"]},
    "wide": {"r": ["s", "t"], "s": ["a"], "t": ["b"]},
    "mixed": {"r": ["a", "s"], "s": ["b"]},
    "big": {"r": ["a", "s"], "s": ["b", "c"]},
}
OPS = {"Recv": "recv", "Send": "send", "Tell": "send", "WWait": "sub", "WQuit": "sub", "EQuit": "sub", "DoneItem": "sub",
       "EWait": "add", "QWait": "add", "QQuit": "add", "Count": "add", "ELook": "load", "QLook": "load", "QLook2": "load",
       "QPend": "load", "Sleep": "sleep"}
STALL = 97

NODE = re.compile(r"^(-?\d+) \[label=\"((?:[^\"\\]|\\.)*)\"")
EDGE = re.compile(r"^(-?\d+) -> (-?\d+) \[label=\"(\w+)(?:\((\d+)\))?\"")


def graph_file(shape, threads, variant):
    return os.path.join(os.environ["QLC_POOL_GRAPHS"], "%s-%d-%s.pickle" % (shape, threads, variant))


def explore(shape, threads, variant="code", live=True, dump=False, timeout=700):
    """TLC on Pool: (exit code, distinct, generated, output); with dump, the state graph goes to a file."""
    env = {"POOL_TREE": shape, "POOL_THREADS": str(threads), "POOL_VARIANT": variant}
    extra = []
    dot = graph_file(shape, threads, variant) + ".dot"
    cfg = "MCPool.cfg" if live else "MCPoolSafe.cfg"
    if dump:
        extra = ["-dump", "dot,actionlabels", dot]
        cfg = "MCPoolGraph.cfg"
    code, out = J.tlc("MCPool.tla", cfg, env, workers="1" if dump else "4", heap="6g", timeout=timeout, extra=extra)
    st, gn = J.counts(out)
    if dump:
        try:
            parse(dot, graph_file(shape, threads, variant))
        finally:
            if os.path.exists(dot):
                os.unlink(dot)
    return code, st, gn, out


def start_proof():
    """tlapm on spec/PoolProof.tla, for any number of workers and any finite tree."""
    d = tempfile.mkdtemp(prefix="proof-", dir=base.WORK)
    for m in ("Pool", "PoolLoop", "PoolInv", "PoolProof"):
        shutil.copy(os.path.join(base.SPEC, m + ".tla"), d)
    out = open(os.path.join(d, "log"), "w")
    return d, subprocess.Popen(["tlapm", "--threads", "4", "--stretch", "3", "PoolProof.tla"], cwd=d, stdout=out, stderr=out, start_new_session=True)


def end_proof(proof, seconds):
    """What came of it. The code has no part in this, so nothing here raises an alarm."""
    d, p = proof
    try:
        p.wait(max(1, seconds))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    text = open(os.path.join(d, "log")).read()
    shutil.rmtree(d, ignore_errors=True)
    m = re.search(r"All (\d+) obligations proved", text)
    if m:
        return "tlapm proves all %s obligations of PoolProof" % m.group(1)
    m = re.search(r"(\d+)/(\d+) obligations failed", text)
    return "tlapm failed on %s of %s obligations of PoolProof" % m.groups() if m else "tlapm did not finish PoolProof in time"


def parse(dot, dst):
    """The graph: states (pc vector, queue, left of each worker, lost work?) and labelled edges."""
    ids, nodes, edges = {}, [], []
    with open(dot) as f:
        for line in f:
            m = EDGE.match(line)
            if m:
                if m.group(4):
                    edges.append((m.group(1), m.group(2), m.group(3), int(m.group(4))))
                continue
            m = NODE.match(line)
            if m and m.group(1) not in ids:
                ids[m.group(1)] = len(nodes)
                lab = re.sub(r"\\(.)", lambda x: "\n" if x.group(1) == "n" else x.group(1), m.group(2))
                v = {}
                for part in ("\n" + lab).split("\n/\\ ")[1:]:
                    k, _, x = part.partition(" = ")
                    v[k] = x.replace("\n", " ")
                nodes.append({"pc": re.findall(r'"([^"]*)"', v["pc"]),
                              "left": [re.findall(r'"([^"]*)"', x) for x in _split(v["left"])],
                              "zero": bool(re.search(r"\|-> 0\b", v["compiled"])) or "\"r\"" in v["queue"]})
    out = collections.defaultdict(list)
    for a, b, act, w in edges:
        out[ids[a]].append((w, act, ids[b]))
    tmp = dst + ".tmp.%d" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump((nodes, {k: sorted(v) for k, v in out.items()}), f)
    os.rename(tmp, dst)


def _split(s):
    """Top-level elements of a TLA+ sequence of sequences."""
    s = s.strip()
    s = s[2:-2]
    out, depth, cur = [], 0, ""
    i = 0
    while i < len(s):
        if s.startswith("<<", i):
            depth += 1
            cur += "<<"
            i += 2
        elif s.startswith(">>", i):
            depth -= 1
            cur += ">>"
            i += 2
        elif s[i] == "," and depth == 0:
            out.append(cur)
            cur = ""
            i += 1
        else:
            cur += s[i]
            i += 1
    return out + [cur]


def ordered(nodes, edges, kids):
    """The part of the graph in which directories are read in the order given."""
    keep = {}
    for a, es in edges.items():
        l = []
        for w, act, b in es:
            if nodes[b]["pc"][w - 1] == "count" and nodes[a]["pc"][w - 1] != "count":
                if nodes[b]["left"][w - 1] not in kids:
                    continue
            l.append((w, act, b))
        keep[a] = l
    return keep


def cover(edges, r, most=10 ** 9, length=400):
    """Paths from the initial state that together take every edge; greedy with breadth-first detours."""
    reach, todo = {0}, [0]
    while todo:
        for w, act, b in edges.get(todo.pop(), []):
            if b not in reach:
                reach.add(b)
                todo.append(b)
    left = {(a, w, b) for a in reach for w, act, b in edges.get(a, []) if a != b}
    total = len(left)
    paths = []
    while left and len(paths) < most:
        cur, path, gain = 0, [], 0
        while len(path) < length:
            opts = [e for e in edges.get(cur, []) if (cur, e[0], e[2]) in left]
            if opts:
                seg = [(cur,) + r.choice(opts)]
            else:
                seg = None
                prev, q = {cur: None}, collections.deque([cur])
                while q and seg is None:
                    x = q.popleft()
                    for w, act, b in edges.get(x, []):
                        if b in prev:
                            continue
                        prev[b] = (x, w, act, b)
                        if any((b, e[0], e[2]) in left for e in edges.get(b, [])):
                            seg = []
                            y = b
                            while prev[y] is not None:
                                seg.append(prev[y])
                                y = prev[y][0]
                            seg.reverse()
                            break
                        q.append(b)
                if seg is None:
                    break
            for a, w, act, b in seg:
                if (a, w, b) in left:
                    left.discard((a, w, b))
                    gain += 1
                path.append((a, w, act, b))
                cur = b
        if not gain:
            break
        paths.append(path)
    return paths, total


def to_bad(nodes, edges, r, most):
    """Paths to states in which a worker has gone although a document was not compiled."""
    prev, q, hits = {0: None}, collections.deque([0]), []
    while q:
        x = q.popleft()
        es = list(edges.get(x, []))
        r.shuffle(es)
        for w, act, b in es:
            if b not in prev:
                prev[b] = (x, w, act, b)
                q.append(b)
                if nodes[b]["zero"] and "end" in nodes[b]["pc"]:
                    hits.append(b)
    r.shuffle(hits)
    out = []
    for b in hits[:most]:
        p = []
        while prev[b] is not None:
            p.append(prev[b])
            b = prev[b][0]
        out.append(p[::-1])
    return out, len(hits)


# ------------------------------------------------------------------ controlled runs
class Driver:
    """Runs one state of a scenario under many schedules; runs that look alike are recorded once."""

    def __init__(self, sc):
        self.sc = sc
        self.seen = set()
        self.runs = self.rescued = self.kept = 0

    def run(self, c, seed=None, sched=None, steps=None):
        sc = self.sc
        rep = sc.dir + ".report"
        if os.path.exists(rep):
            os.unlink(rep)
        env = {"QLC_VERIF_OUT": rep}
        if seed is not None:
            env["QLC_VERIF_SEED"] = str(seed)
        if sched is not None:
            sp = sc.dir + ".sched"
            with open(sp, "w") as f:
                f.write(" ".join(map(str, sched)))
            os.chmod(sp, 0o644)
            env["QLC_VERIF_SCHED"] = sp
        if steps:
            env["QLC_VERIF_STEPS"] = str(steps)
        if sc.keep:
            sc.note({"schedule": sched if sched is not None else {"seed": seed}, "threads": c["threads"]})
        mark, logmark = len(sc.ev), len(sc.log)
        sc.run(c, env=env, binary=sc.hooked, stall=STALL)
        self.runs += 1
        head, ops = "", []
        if os.path.exists(rep):
            with open(rep) as f:
                head = f.readline()
                ops = [(int(x.split(":")[0]), x.split(":")[1]) for x in f.readline().split()]
            os.unlink(rep)
        m = re.search(r"rescues=(\d+)", head)
        if m and int(m.group(1)) > 0:
            del sc.ev[mark:]            # something this scheduler does not control was going on
            self.rescued += 1
            return None
        key = json.dumps([{k: v for k, v in e.items() if k not in ("n", "cli")} for e in sc.ev[mark:]], sort_keys=True)
        if key in self.seen:
            del sc.ev[mark:]
            del sc.log[logmark:]
        else:
            self.seen.add(key)
            self.kept += 1
        return ops

    def info(self, **kw):
        return dict(kw, controlled_runs=self.runs, rescued=self.rescued, different_recordings=self.kept)


def small_tree(sc, shape):
    """A tree like the one of the model; each document is worth a warning, one uses an enum."""
    S = F._simple_schema()
    sc.put_schema("schema.json", S)
    sc.put_dir("root")
    at = {"r": "root"}
    for d, kids in TREES[shape].items():
        for k in kids:
            if k in TREES[shape]:
                at[k] = at[d] + "/" + k
                sc.put_dir(at[k])
            else:
                at[k] = at[d] + "/" + k + ".graphql"
                sc.put_doc(at[k], pool_doc(S, k), [])
    names = {os.path.basename(p): n for n, p in at.items()}
    order = []
    for d in TREES[shape]:
        with os.scandir(sc.abs(at[d])) as it:
            order.append([names[e.name] for e in it])
    return at, order


def pool_doc(S, k):
    if k == "a":
        return {"op": "query", "name": "Qa", "on": "", "vars": [{"name": "e", "w": [], "n": "Color", "pos": [0, 0]}], "sel": [F._leaf("old", "old")]}
    if k == "b":
        return {"op": "query", "name": "Qb", "on": "", "vars": [{"name": "i", "w": [], "n": "Filter", "pos": [0, 0]}], "sel": [F._leaf("missing", "missing"), F._leaf("old", "old")]}
    return {"op": "mutation", "name": "Qc", "on": "", "vars": [], "sel": [F._leaf("__typename")]}


def _load(shape, threads, variant, order):
    with open(graph_file(shape, threads, variant), "rb") as f:
        nodes, edges = pickle.load(f)
    return nodes, ordered(nodes, edges, order)


def cover_family(sc, r, seed):
    """seed: shape:threads:part:parts:most: schedules that take every step of the model's graph."""
    shape, threads, part, parts, most = seed.split(":")
    threads, part, parts, most = int(threads), int(part), int(parts), int(most)
    at, order = small_tree(sc, shape)
    nodes, edges = _load(shape, threads, "code", order)
    paths, total = cover(edges, random.Random(base.SEED), most)
    d = Driver(sc)
    c = R.cli(root="root", schema="schema.json", threads=threads, depr=True)
    met, exact = set(), 0
    for p in paths[part::parts]:
        ops = d.run(c, sched=list(range(1, threads + 1)) + [w for a, w, act, b in p])
        if ops is None:
            continue
        got = [o for o in ops if o[0] != 0][:len(p)]
        want = [(w, OPS[act]) for a, w, act, b in p]
        n = 0
        while n < len(want) and n < len(got) and want[n] == got[n]:
            n += 1
        if n == len(want):
            exact += 1
        met |= {(a, w, b) for a, w, act, b in p[:n]}
    return d.info(model="%s/%d" % (shape, threads), order=json.dumps(order), edges=total, met=len(met), exact=exact,
                  followed=len(paths[part::parts]), met_set=met)


def adversary(sc, r, seed):
    """seed: shape:threads:variant:part/parts/most: schedules under which a wrong protocol loses documents."""
    shape, threads, variant, part, parts, most = seed.split(":")
    at, order = small_tree(sc, shape)
    nodes, edges = _load(shape, int(threads), variant, order)
    paths, hits = to_bad(nodes, edges, random.Random(base.SEED), int(most))
    d = Driver(sc)
    c = R.cli(root="root", schema="schema.json", threads=int(threads), depr=True)
    mine = paths[int(part)::int(parts)]
    for p in mine:
        d.run(c, sched=list(range(1, int(threads) + 1)) + [w for a, w, act, b in p])
    return d.info(model="%s/%s/%s" % (shape, threads, variant), adversarial=len(mine), bad_states=hits)


def _mixed_tree(sc, r, n):
    """Documents of all fates in nested directories."""
    S = F._simple_schema(r)
    sc.put_schema("schema.json", S)
    sc.put_dir("root")
    sc.words = True
    dirs = ["root"]
    for i in range(r.randrange(0, 5)):
        d = r.choice(dirs) + "/d%d" % i
        dirs.append(d)
        sc.put_dir(d)
    # fragments: different ones under the same file name, and ones that import what is not there
    if r.random() < .5 or n > 10:
        parts = {}
        for i, d in enumerate(dirs):
            if r.random() < .8:
                h = ['#import "./nowhere.graphql"'] if r.random() < .3 else []
                if parts and r.random() < .4:
                    h.append('#import "%s"' % posixpath.join(r.choice(list(parts))[5:], "part.graphql"))
                sel = [F._leaf(x, x) for x in r.sample(["old", "when", "color"] + ["nope"] * (r.random() < .2), r.choice([1, 2]))]
                sc.put_doc(d + "/part.graphql", {"op": "fragment", "name": "Part%d" % i, "on": "Query", "vars": [], "sel": sel}, h)
                parts[d] = "Part%d" % i
        for i, d in enumerate(list(parts) * 2):
            at = r.choice(dirs)
            way = "./part.graphql" if at == d else posixpath.join(d[5:], "part.graphql")
            sc.put_doc("%s/use%d.graphql" % (at, i), {"op": "query", "name": "Use%d" % i, "on": "", "vars": [],
                                                     "sel": [F._leaf("old", "old"), {"k": "s", "frag": parts[d]}]}, ['#import "%s"' % way])
    for i in range(n):
        d = r.choice(dirs)
        name = "Doc%d" % i
        x = r.random()
        p = "%s/x%d.graphql" % (d, i)
        if x < .75:
            sc.put_doc(p, F._simple_doc(r, name, valid=r.random() < .8), [])
        elif x < .85:
            sc.put_raw(p, b"query { \xff }", "nonutf")
        elif x < .92:
            sc.put_raw(p, "query {", "bad")
        else:
            sc.put_doc(p, {"op": "query", "name": name, "on": "", "vars": [{"name": "f", "w": [], "n": "Filter", "pos": [0, 0]}],
                           "sel": [F._leaf("old", "old")]}, [])
    if r.random() < .3:
        sc.put_dir(r.choice(dirs) + "/closed", st="unlistable")


def random_schedules(sc, r, seed):
    """A mixed tree under random schedules and thread counts."""
    _mixed_tree(sc, r, r.choice([1, 2, 3, 4, 6]))
    d = Driver(sc)
    for i in range(14):
        c = R.cli(root="root", schema="schema.json", threads=r.choice([1, 2, 2, 3, 3, 4, 6]), depr=True)
        d.run(c, seed=r.randrange(1, 10 ** 6))
    return d.info()


def free_schedules(sc, r, seed):
    """The plain binary, left to the operating system, with many thread counts."""
    _mixed_tree(sc, r, r.choice([0, 1, 3, 10, 40]))
    d = Driver(sc)
    n = 0
    for t in [1, 2, 3, 4, 7, 8, 16, 33, 64]:
        for k in range(2):
            mark = len(sc.ev)
            sc.run(R.cli(root="root", schema="schema.json", threads=t, depr=True))
            n += 1
            key = json.dumps([{k: v for k, v in e.items() if k not in ("n", "cli")} for e in sc.ev[mark:]], sort_keys=True)
            if key in d.seen:
                del sc.ev[mark:]
            else:
                d.seen.add(key)
    return {"free_runs": n, "different_recordings": len(d.seen)}
