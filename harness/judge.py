"""Runs TLC: on recorded traces (sharded over several JVMs) and on models."""
import json
import os
import re
import subprocess
import tempfile
import shutil
import time
from concurrent.futures import ThreadPoolExecutor

from base import SPEC, WORK, ToolError

JAR = "/opt/veriftools/tla/tla2tools.jar"


def tlc(spec, cfg, env=None, workers="1", heap="3g", timeout=800, extra=(), java=()):
    """Returns (exit code, output). Runs in a scratch metadir."""
    os.makedirs(WORK, exist_ok=True)
    meta = tempfile.mkdtemp(prefix="tlc-", dir=WORK)
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = " ".join(["-Xmx" + heap, "-XX:+UseParallelGC", "-Xss64m"] + list(java))
    cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [spec]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as ex:
        o = ex.stdout or b""
        return -1, (o.decode(errors="replace") if isinstance(o, bytes) else o) + "\nTIMEOUT"
    finally:
        shutil.rmtree(meta, ignore_errors=True)


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def counts(out):
    m = None
    for m in STATES.finditer(out):
        pass
    return (int(m.group(2)), int(m.group(1))) if m else (0, 0)


def messages(out, word):
    """Values printed by PrintT(word \\o ToJson(..))."""
    res = []
    for line in out.split("\n"):
        line = line.strip()
        if line.startswith('"' + word + " "):
            res.append(json.loads(json.loads(line)[len(word) + 1:]))
    return res


def _trace(groups, timeout, module="QlcTrace"):
    """One TLC over the recordings: (bads, counts, error)."""
    fd, path = tempfile.mkstemp(prefix="trace-", suffix=".ndjson", dir=WORK)
    try:
        with os.fdopen(fd, "w") as f:
            for g in groups:
                for ev in g:
                    f.write(json.dumps(ev) + "\n")
        code, out = tlc(module + ".tla", module + ".cfg", {"QLC_TRACE": path}, timeout=timeout)
        err = None
        if code == -1:
            err = "timeout"
        elif code != 0:
            err = "\n".join(l for l in out.split("\n") if l.strip() and not l.startswith(("Parsing", "Semantic")))[-3000:]
        t = messages(out, "TALLY")
        return messages(out, "BAD"), counts(out) + (t[0] if t else [0] * 5,), err
    finally:
        os.unlink(path)


TALLY = ["must_compile", "must_fail", "undetermined", "runs", "outputs"]


def judge(groups, ids=None, shards=8, timeout=500, workers=8, module="QlcTrace"):
    """groups: list of event lists, one per history. Returns (bads, distinct states, generated states,
    {id: message} of the histories TLC could not accept)."""
    if not groups:
        return [], 0, 0, {}, {}
    ids = ids or [g[0]["id"] for g in groups]
    os.makedirs(WORK, exist_ok=True)
    n = max(1, min(shards, len(groups)))
    size = [sum(len(json.dumps(e)) for e in g) for g in groups]
    bins = [[] for _ in range(n)]
    load = [0] * n
    for i in sorted(range(len(groups)), key=lambda i: -size[i]):
        k = load.index(min(load))
        bins[k].append(i)
        load[k] += size[i]

    def one(idx):
        todo = [idx]
        bads, st, gen, failed, tally = [], 0, 0, {}, [0] * 5
        while todo:
            cur = todo.pop()
            b, (s, g, t), err = _trace([groups[i] for i in cur], timeout, module)
            if err == "timeout":
                raise ToolError("TLC did not finish on recordings of " + ids[cur[0]])
            if err is None:
                bads += b
                st += s
                gen += g
                tally = [x + y for x, y in zip(tally, t)]
            elif len(cur) == 1:
                bads += b
                failed[ids[cur[0]]] = err
            elif len(failed) < 3:
                h = len(cur) // 2
                todo += [cur[:h], cur[h:]]
        return bads, st, gen, failed, tally

    with ThreadPoolExecutor(workers) as ex:
        rs = list(ex.map(one, bins))
    failed = {}
    for r in rs:
        failed.update(r[3])
    return [b for r in rs for b in r[0]], sum(r[1] for r in rs), sum(r[2] for r in rs), failed, \
        dict(zip(TALLY, (sum(r[4][i] for r in rs) for i in range(5))))
