"""Scenarios: histories of edits and runs of the real program in a scratch directory, recorded
as the events spec/QlcTrace.tla reads."""
import hashlib
import json
import os
import posixpath
import re
import shutil
import stat
import subprocess

from base import as_user, ToolError
import base
import gql

OLD = 10 ** 18
RECENT = 11 * 10 ** 17


def sha(b):
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogateescape")
    return hashlib.sha1(b).hexdigest()[:16]


# ------------------------------------------------------------------ abstraction of inputs
def doc_lines(text):
    return [l.strip() for l in (text or "").splitlines() if l.strip()]


def hostile(text):
    t = text or ""
    return "/*" in t or "*/" in t or any(l.startswith("*") or l == "@deprecated" for l in doc_lines(t)) \
        or any(c in t for c in "\r\v\f\x1c\x1d\x1e\x85\u2028\u2029")


def tla_schema(S):
    out = {}
    for n, t in S["types"].items():
        out[n] = {"k": t["k"], "poss": t["poss"], "vals": t["vals"],
                  "doc": doc_lines(t["doc"]), "hostile": hostile(t["doc"]),
                  "f": {fn: {"w": f["w"], "n": f["n"], "d": bool(f["d"]), "doc": doc_lines(f["doc"]),
                             "hostile": hostile(f["doc"])} for fn, f in t["f"].items()}}
    return out


def tla_sel(items):
    out = []
    for it in items:
        if it["k"] == "f":
            out.append({"k": "f", "key": it["key"], "name": it["name"], "args": it.get("args") or "",
                        "sel": tla_sel(it["sel"]), "pos": it["pos"]})
        elif it["k"] == "i":
            out.append({"k": "i", "on": it["on"], "sel": tla_sel(it["sel"]), "pos": it["pos"]})
        else:
            out.append({"k": "s", "frag": it["frag"], "sel": [], "pos": it["pos"]})
    return out


def tla_def(d):
    return {"op": d["op"], "name": d["name"] or "", "on": d.get("on") or "",
            "vars": [{"name": v["name"], "w": v["w"], "n": v["n"], "pos": v["pos"]} for v in d["vars"]],
            "sel": tla_sel(d["sel"]), "pos": d.get("pos", [1, 1])}


def header_of(text):
    out = []
    for l in text.split("\n"):
        l = l[:-1] if l.endswith("\r") else l
        out.append(l)
        if l.strip() and not l.startswith("#"):
            break
    return out


NOCLI = {"root": [], "config": [], "schema": [], "scalarPrefix": [], "importPrefix": [], "globals": [], "node": [],
         "threads": [], "scalars": False, "disableReadonly": False, "depr": False}
FILEKEYS = [("schema", "schemaFile"), ("scalars", "useCustomScalars"), ("scalarPrefix", "customScalarPrefix"),
            ("importPrefix", "rootDirImportPrefix"), ("globals", "globalTypesModuleName"),
            ("node", "typedGraphqlDocumentnodeModuleName"), ("threads", "numThreads"),
            ("disableReadonly", "disableReadonlyTypes"), ("depr", "showDeprecationWarnings")]


def cli(**kw):
    c = dict(NOCLI)
    for k, v in kw.items():
        c[k] = v if k in ("scalars", "disableReadonly", "depr") else ([v] if v is not None else [])
    return c


def argv(c):
    a = []
    for k, flag in (("config", "--config-file"), ("schema", "--schema-path"), ("scalarPrefix", "--custom-scalar-prefix"),
                    ("importPrefix", "--root-dir-import-prefix"), ("globals", "--global-types-module-name"),
                    ("node", "--typed-graphql-documentnode-module-name"), ("threads", "--num-threads")):
        if c[k]:
            a.append("%s=%s" % (flag, c[k][0]))
    for k, flag in (("scalars", "--use-custom-scalars"), ("disableReadonly", "--disable-readonly-types"),
                    ("depr", "--show-deprecation-warnings")):
        if c[k]:
            a.append(flag)
    if c["root"]:
        a.append(c["root"][0])
    return a


# ------------------------------------------------------------------ diagnostics
HEAD = re.compile(r"^(error|warning|program error): (.*)$")
LOC = re.compile(r"^\s*--> (.*?)(?::(\d+)(?::(\d+))?)?$")
SUME = re.compile(r"^failure due to (\d+) errors?$")
SUMW = re.compile(r"^(\d+) warnings? emitted$")
IO = re.compile(r"^could not (read|write) `(.*?)`: ")


def parse_out(text):
    blocks = []
    for line in text.split("\n"):
        m = HEAD.match(line)
        if m:
            blocks.append({"lvl": "warning" if m.group(1) == "warning" else "error", "msg": m.group(2),
                           "path": None, "line": 0, "col": 0, "rest": [], "excerpt": []})
            continue
        if not blocks:
            continue
        b = blocks[-1]
        m = LOC.match(line)
        if m and b["path"] is None:
            b["path"] = m.group(1)
            b["line"] = int(m.group(2) or 0)
            b["col"] = int(m.group(3) or 0)
        elif b["path"] is None and line.strip():
            b["rest"].append(line)
        elif b["path"] is not None:
            b["excerpt"].append(line)
    sume = sumw = 0
    diags = []
    for b in blocks:
        if b["path"] is None:
            m = SUME.match(b["msg"])
            if m and b["lvl"] == "error":
                sume = int(m.group(1))
                continue
            m = SUMW.match(b["msg"])
            if m and b["lvl"] == "warning":
                sumw = int(m.group(1))
                continue
        diags.append(b)
    return diags, sume, sumw


BAR = re.compile(r"^ *\|$")
LINE = re.compile(r"^(\d+) \| (.*)$", re.S)
MARK = re.compile(r"^ *\| ( *)\^$")
HELP = re.compile(r"^ *= help: (.*)$")
NEAR = re.compile(r"Did you mean one of the following: `(.*)`\?$")
ONLY = re.compile(r"are limited to `(.*?)`, making spreading ")


def names(text):
    return re.findall(r"`([^`]*)`", text)


def said(b):
    """What a diagnostic with a position says."""
    x = b["excerpt"]
    d = {"lvl": b["lvl"], "line": b["line"], "col": b["col"], "gutter": 0, "quote": "", "mark": 0, "names": names(b["msg"]),
         "near": [], "only": []}
    if len(x) >= 3 and BAR.match(x[0]) and LINE.match(x[1]) and MARK.match(x[2]):
        m = LINE.match(x[1])
        d["gutter"], d["quote"] = int(m.group(1)), sha(m.group(2))
        # where the mark stands under the quoted text
        d["mark"] = x[2].index("^") - m.start(2) + 1
    if len(x) >= 4 and HELP.match(x[3]):
        h = HELP.match(x[3]).group(1)
        m = NEAR.search(h)
        if m:
            d["near"] = m.group(1).split("`, `")
        m = ONLY.search(h)
        if m:
            d["only"] = [n for n in m.group(1).split("`, `") if n]
    return d


# ------------------------------------------------------------------ projector
class Projector:
    def __init__(self):
        self.p = subprocess.Popen(["node", os.path.join(os.path.dirname(os.path.abspath(__file__)), "project.js")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.memo = {}

    def __call__(self, text):
        k = sha(text)
        if k not in self.memo:
            if len(self.memo) > 5000:
                self.memo.clear()
            self.p.stdin.write(json.dumps({"text": text}) + "\n")
            self.p.stdin.flush()
            self.memo[k] = json.loads(self.p.stdout.readline())
        return self.memo[k]

    def close(self):
        self.p.stdin.close()
        self.p.wait()


NOMOD = {"parses": False}


def bare(mod):
    """The identity of a projected module without its comments."""
    def go(x):
        if isinstance(x, dict):
            return {k: go(v) for k, v in x.items() if k not in ("doc", "dep")}
        return [go(v) for v in x] if isinstance(x, list) else x
    return sha(json.dumps(go(mod), sort_keys=True))


def undocumented(S):
    return {"types": {n: {**t, "doc": None, "f": {a: {**f, "doc": None} for a, f in t["f"].items()}} for n, t in S["types"].items()}}


class Enough(Exception):
    """So many runs hung that the rest is not worth waiting for."""


HANGS = None        # shared between processes: [confirmed hangs, stalls reported by the scheduler]


class Scenario:
    """One history. base: directory (its own, world-writable) to work in."""

    def __init__(self, sid, base, binary, projector, events):
        self.id = sid
        self.dir = os.path.join(base, sid)
        os.makedirs(self.dir)
        os.chmod(self.dir, 0o777)
        self.bin = binary
        self.proj = projector
        self.ev = events
        self.tree = {}
        self.runs = 0
        self.schemas = {}
        self.last = None
        self.log = []
        self.keep = False
        self.explain = False            # record what diagnostics say, too
        self.words = False              # record the whole text a run prints
        self.typed = False              # record what the TypeScript compiler makes of the outputs, too
        self.hooked = None
        self.emit({"e": "begin", "id": sid})

    def emit(self, e):
        self.ev.append(e)

    def abs(self, p):
        return os.path.join(self.dir, p)

    # ---- edits
    def schema(self, S):
        n = "s" + sha(json.dumps(S, sort_keys=True))
        if n not in self.schemas:
            self.schemas[n] = S
            self.emit({"e": "schema", "id": n, "S": tla_schema(S)})
        return n

    def _mkdirs(self, p):
        d = posixpath.dirname(p)
        if d and d not in self.tree:
            self._mkdirs(d)
            if not os.path.isdir(self.abs(d)):
                os.mkdir(self.abs(d))
                os.chmod(self.abs(d), 0o777)
            self._put(d, {"kind": "dir", "st": "ok", "cid": ""})

    def _put(self, p, src):
        self.tree[p] = src
        self.emit({"e": "put", "f": p, "src": src})

    def _write(self, p, data, mode=0o666):
        self._mkdirs(p)
        q = self.abs(p)
        if os.path.lexists(q) and not os.path.isfile(q):
            raise ToolError("overwriting a non-file")
        if isinstance(data, str):
            data = data.encode()
        if os.path.lexists(q):
            os.unlink(q)
        with open(q, "wb") as f:
            f.write(data)
        os.chmod(q, mode)
        self.note({"write": p, "mode": oct(mode), "text": data.decode("utf-8", "replace")[:20000]})
        return sha(data)

    def note(self, x):
        if self.keep:
            self.log.append(x)

    def put_doc(self, p, d, header=(), rng=None, text=None):
        """d: abstract definition (see gql)."""
        if text is None:
            text = gql.render({"def": d, "header_lines": list(header), "text": None}, rng)
        cid = self._write(p, text)
        self._put(p, {"kind": "file", "st": "ok", "cid": cid, "lines": header_of(text), "def": tla_def(d)})
        return text

    def put_raw(self, p, data, st, mode=0o666):
        cid = self._write(p, data, mode)
        try:
            text = data if isinstance(data, str) else data.decode()
            lines = header_of(text)
        except UnicodeDecodeError:
            lines = []
        self._put(p, {"kind": "file", "st": st, "cid": cid, "lines": lines, "conf": {"st": "bad"}, "sch": ""})

    def put_schema(self, p, S, rng=None, text=None, st="ok"):
        data = text if text is not None else json.dumps(gql.introspection(S, rng))
        cid = self._write(p, data)
        sch = self.schema(S) if S is not None else ""
        # the meaning of a schema file is what outputs depend on, not its spelling
        self._put(p, {"kind": "file", "st": st, "cid": sch or cid, "sch": sch, "spell": cid,
                      "plain": sha(json.dumps(undocumented(S), sort_keys=True)) if S is not None else ""})

    def put_conf(self, p, opts, raw=None, extra=None):
        j = {}
        conf = {"st": "ok"}
        for k, jk in FILEKEYS:
            conf[k] = []
            if k in opts and opts[k] is not None:
                conf[k] = [opts[k]]
                j[jk] = opts[k]
                if isinstance(j[jk], str) and k == "schema":
                    j[jk] = j[jk].replace("/W/", self.dir + "/")
        j.update(extra or {})
        if raw is not None:
            conf["st"] = "bad"
        cid = self._write(p, raw if raw is not None else json.dumps(j))
        self._put(p, {"kind": "file", "st": "ok", "cid": cid, "conf": conf})

    def put_other(self, p, data):
        cid = self._write(p, data)
        self._put(p, {"kind": "file", "st": "other", "cid": cid, "lines": [],
                      "conf": {"st": "bad"}, "sch": ""})

    def put_dir(self, p, st="ok"):
        self._mkdirs(p)
        if not os.path.isdir(self.abs(p)):
            os.mkdir(self.abs(p))
        os.chmod(self.abs(p), 0o777 if st == "ok" else 0o000)
        self._put(p, {"kind": "dir", "st": st, "cid": ""})

    def put_link(self, p, target):
        self._mkdirs(p)
        os.symlink(target, self.abs(p))
        self.note({"link": p, "to": target})
        self._put(p, {"kind": "link", "st": "ok", "cid": ""})

    def put_fifo(self, p):
        self._mkdirs(p)
        os.mkfifo(self.abs(p))
        os.chmod(self.abs(p), 0o666)
        self._put(p, {"kind": "special", "st": "ok", "cid": ""})

    def chmod(self, p, mode, st):
        os.chmod(self.abs(p), mode)
        self.note({"chmod": p, "mode": oct(mode)})
        src = dict(self.tree[p])
        src["st"] = st
        self._put(p, src)

    def remove(self, p):
        q = self.abs(p)
        self.note({"remove": p})
        if os.path.isdir(q) and not os.path.islink(q):
            os.chmod(q, 0o777)
            shutil.rmtree(q)
        elif os.path.lexists(q):
            os.unlink(q)
        for x in [x for x in self.tree if x == p or x.startswith(p + "/")]:
            del self.tree[x]
            self.emit({"e": "del", "f": x})
        if p not in self.tree:
            self.emit({"e": "del", "f": p})

    def forget(self, p):
        """Deletes an output; the specification no longer expects its old bytes."""
        os.unlink(self.abs(p))
        self.note({"remove": p})
        self.emit({"e": "del", "f": p})

    # ---- observation
    def snapshot(self):
        out = {}
        for d, ds, fs in os.walk(self.dir):
            for x in fs + ds:
                q = os.path.join(d, x)
                rel = os.path.relpath(q, self.dir)
                st = os.lstat(q)
                if stat.S_ISREG(st.st_mode):
                    with open(q, "rb") as f:
                        out[rel] = (sha(f.read()), st.st_mtime_ns, st.st_ino)
                elif stat.S_ISLNK(st.st_mode):
                    out[rel] = ("link:" + os.readlink(q), 0, st.st_ino)
                else:
                    out[rel] = ("dir" if stat.S_ISDIR(st.st_mode) else "special", 0, st.st_ino)
        return out

    def _backdate(self, when):
        """Gives what has changed lately a time long ago, mostly in the order in which it changed."""
        for d, ds, fs in os.walk(self.dir):
            for x in fs:
                q = os.path.join(d, x)
                st = os.lstat(q)
                if stat.S_ISREG(st.st_mode) and st.st_mtime_ns > RECENT:
                    t = OLD + when * 10 ** 10
                    if int(sha("%s/%d" % (q[len(self.dir):], when)), 16) % 8 == 0:
                        t = OLD - 10 ** 10
                    os.utime(q, ns=(t, t))

    def rel(self, p):
        if os.path.isabs(p):
            p = os.path.relpath(p, self.dir)
        p = posixpath.normpath(p)
        return "" if p == "." else p

    def run(self, c, env=None, timeout=20, args=None, binary=None, blind=False, stall=None):
        """One run of the program; emits its events. Returns the raw observation.
        blind: only whether it crashed or hung is recorded. stall: exit code with which the scheduler
        of a hooked binary reports that nothing moves any more."""
        if HANGS is not None and (HANGS[0] >= 3 or HANGS[1] >= 30):
            raise Enough()
        self.runs += 1
        self._backdate(2 * self.runs)
        before = self.snapshot()
        e = {"PATH": "/usr/bin:/bin", "NO_COLOR": "1", "RUST_BACKTRACE": "0"}
        e.update({k: v for k, v in (env or {}).items() if v is not None})
        e = {k: v for k, v in e.items() if (env or {}).get(k, "") is not None}
        a = [x.replace("/W/", self.dir + "/") for x in (argv(c) if args is None else args)]
        hung = True
        for limit in (timeout, 3 * timeout):        # a hang is believed when it repeats
            try:
                r = subprocess.run([binary or self.bin] + a, cwd=self.dir, env=e, capture_output=True, timeout=limit, **as_user())
                hung, code, so, se = False, r.returncode, r.stdout, r.stderr
                break
            except subprocess.TimeoutExpired as ex:
                code, so, se = -99, ex.stdout or b"", ex.stderr or b""
        out = so.decode("utf-8", "replace")
        err = se.decode("utf-8", "replace")
        if stall is not None and code == stall:
            hung = True
        if hung and HANGS is not None:
            HANGS[1 if code == stall else 0] += 1
        after = self.snapshot()
        self._backdate(2 * self.runs + 1)
        diags, sume, sumw = parse_out(out)
        crashed = not hung and (code < 0 or code == 101 or "panicked at" in err or "has overflowed its stack" in err
                                or code not in (0, 1, 2))
        obs = {"argv": a, "code": code, "stdout": out[-6000:], "stderr": err[-2000:], "hung": hung, "crashed": crashed}
        self.last = obs
        self.note(dict(obs, env=env or {}))
        self.emit({"e": "run", "cli": c, "n": self.runs})
        if crashed or hung or blind:
            self.emit({"e": "abort", "crashed": crashed, "hung": hung})
            return obs
        touched = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
        docs = sorted(p for p, s in self.tree.items() if p.endswith(".graphql") and s["kind"] != "dir")
        perdoc = {p: {"errs": [], "warns": [], "werr": 0} for p in docs}
        if self.explain:
            for p in docs:
                perdoc[p].update(said=[], text=[])
        stray, straywarn, loose, io = [], [], [], []
        gerr = False
        nerr = nwarn = 0
        root = self.rel(c["root"][0].replace("/W/", self.dir + "/")) if c["root"] else ""
        for b in diags:
            if b["lvl"] == "warning":
                nwarn += 1
            else:
                nerr += 1
            if b["path"] is not None:
                p = self.rel(b["path"])
                pos = [b["line"], b["col"]]
                if p in perdoc:
                    perdoc[p]["warns" if b["lvl"] == "warning" else "errs"].append(pos)
                    if self.explain and b["line"]:
                        perdoc[p]["said"].append(said(b))
                elif b["lvl"] == "warning":
                    straywarn.append(p)
                else:
                    stray.append([p] + pos)
                continue
            m = IO.match(b["msg"])
            if m:
                p = self.rel(m.group(2))
                if p in perdoc:
                    perdoc[p]["errs"].append([0, 0])
                elif p.endswith(".d.ts") and p[:-5] in perdoc:
                    perdoc[p[:-5]]["werr"] += 1
                elif m.group(1) == "write":
                    gerr = True
                else:
                    io.append(p)
            elif b["lvl"] == "warning":
                straywarn.append("")
            else:
                loose.append(re.findall(r"`([^`]*)`", b["msg"]))
        gl = self.globals_path(c, root)
        accounted = set()
        written = []
        types = self.typecheck(c, [p + ".d.ts" for p in docs if p + ".d.ts" in touched and self.is_file(p + ".d.ts")], gl) if self.typed else None
        for p in docs:
            t = p + ".d.ts"
            accounted.add(t)
            wrote = t in touched and t in after and after[t][0] != "dir"
            ev = {"e": "doc", "f": p, "wrote": wrote, "post": after[t][0] if t in after and after[t][1] else "",
                  "has": False, "mod": NOMOD, "bare": ""}
            if t in touched and t not in after:
                accounted.discard(t)
            if wrote:
                if self.keep:
                    self.note({"output": t, "text": open(self.abs(t), "rb").read().decode("utf-8", "replace")})
                written.append((t, after[t][0]))
                ev["has"] = True
                ev["mod"] = self.project(t)
                ev["bare"] = bare(ev["mod"])
                if types:
                    ev["typed"] = types["modules"][t]
            ev.update(perdoc[p])
            if ev.get("said"):
                with open(self.abs(p), "rb") as f:
                    ev["text"] = [sha(x[:-1] if x.endswith("\r") else x) for x in f.read().decode("utf-8", "replace").split("\n")]
            self.emit(ev)
        gw = gl in touched and gl in after
        if gl in touched and gl not in after:
            pass
        else:
            accounted.add(gl)
        refuse = self.refused
        if not refuse:
            ev = {"e": "globals", "f": gl, "wrote": gw, "post": after[gl][0] if gw else "", "has": gw,
                  "mod": self.project(gl) if gw else NOMOD, "err": gerr, "bare": "",
                  "nodir": not os.path.isdir(os.path.dirname(self.abs(gl)))}
            ev["bare"] = bare(ev["mod"])
            if gw and types:
                ev["typed"] = len(types["globals"])
            self.emit(ev)
        if gw:
            written.append((gl, after[gl][0]))
        others = sorted(t for t in touched - (set() if refuse else accounted))
        digest = sha(json.dumps([sorted([b["lvl"], b["path"] and self.rel(b["path"]) or "", b["line"], b["col"]] for b in diags),
                                 sorted(written), code]))
        self.emit({"e": "exit", "code": code, "crashed": False, "hung": False, "nerr": nerr, "nwarn": nwarn,
                   "sumerr": sume, "sumwarn": sumw, "others": others, "loose": loose, "stray": stray,
                   "straywarn": straywarn, "io": io, "digest": digest,
                   **({"words": sha(json.dumps(sorted(out.split("\n")))), "coloured": "\x1b" in out,
                       "colours": e.get("CLICOLOR_FORCE") == "1" and "--no-color" not in a} if self.explain or self.words else {}),
                   **({"typed": {"errs": len(types["helpers"]), "kinds": types["kinds"]}} if types else {})})
        obs["written"] = written
        obs["diags"] = [(b["lvl"], b["msg"], b["path"], b["line"], b["col"]) for b in diags]
        return obs

    def project(self, p):
        with open(self.abs(p), "rb") as f:
            data = f.read()
        try:
            return self.proj(data.decode())
        except UnicodeDecodeError:
            return NOMOD

    def is_file(self, p):
        return os.path.isfile(self.abs(p)) and not os.path.islink(self.abs(p))

    def typecheck(self, c, outputs, gl):
        """What the TypeScript compiler makes of emitted modules together with the package's helpers."""
        if not outputs:
            return None
        s = next((s for s in self.tree.values() if s.get("sch")), None)
        names = [n for n, t in self.schemas[s["sch"]]["types"].items() if t["k"] == "SCALAR"] if s and c["scalars"] else []
        job = {"node": (c["node"] or ["@notarize/qlc-cli/typed-documentnode"])[0],
               "nodeFile": os.path.join(base.REPO, "pkg/npm/lib/typed-documentnode.d.ts"),
               "globals": (c["globals"] or ["graphql-globals"])[0], "globalsFile": self.abs(gl) if self.is_file(gl) else None,
               "scalars": [(c["scalarPrefix"] or [""])[0] + n for n in names], "modules": [self.abs(p) for p in outputs]}
        try:
            r = subprocess.run(["node", os.path.join(os.path.dirname(os.path.abspath(__file__)), "types.js")], input=json.dumps(job).encode(),
                               capture_output=True, timeout=300)
            a = json.loads(r.stdout)
        except (ValueError, subprocess.TimeoutExpired) as ex:
            raise base.ToolError("types.js: %s %s" % (ex, r.stderr[-1000:] if r else ""))
        for p, m in zip(outputs, a["modules"]):
            if m["errs"]:
                self.note({"typescript": p, "errors": m["errs"][:5]})
            m["errs"] = len(m["errs"])
        for k in ("globals", "helpers"):
            if a[k]:
                self.note({"typescript": k, "errors": a[k][:5]})
        a["modules"] = dict(zip(outputs, a["modules"]))
        return a

    # ---- the path of the globals file and whether the run is refused, only used to tell which
    # events to emit: the specification decides both on its own (it rejects a wrong guess).
    def globals_path(self, c, root):
        f = self.fileopts(c)
        g = (c["globals"] or f.get("globals") or ["graphql-globals"])[0]
        pre = c["importPrefix"] or f.get("importPrefix") or []
        if pre and g.startswith(pre[0]):
            g = g[len(pre[0]):]
        if posixpath.basename(g).rfind(".") <= 0:
            g += ".ts"
        sp = c["schema"] or f.get("schema")
        if c["schema"]:
            sp = self.rel(c["schema"][0].replace("/W/", self.dir + "/"))
        elif f.get("schema"):
            sp = f["schema"][0].replace("/W/", self.dir + "/")
            if not sp.startswith("/"):
                sp = posixpath.join(posixpath.dirname(self.confpath(c)), sp)
            sp = self.rel(sp)
        else:
            sp = self.rel(posixpath.join(root, "schema.json"))
        s = self.tree.get(sp)
        self.refused = (bool(c["scalarPrefix"]) and not c["scalars"]) or self.confbad(c) or \
            not (s and s["kind"] == "file" and s["st"] == "ok" and s.get("sch"))
        return self.rel(posixpath.join(root or ".", g))

    def confpath(self, c):
        return self.rel((c["config"] or [".qlcrc.json"])[0].replace("/W/", self.dir + "/"))

    def confbad(self, c):
        s = self.tree.get(self.confpath(c))
        if s is None:
            return bool(c["config"])
        return s["kind"] != "file" or s["conf"]["st"] != "ok"

    def fileopts(self, c):
        s = self.tree.get(self.confpath(c))
        if s and s["kind"] == "file" and s.get("conf", {}).get("st") == "ok":
            return s["conf"]
        return {}

    def cleanup(self):
        subprocess.run(["chmod", "-R", "u+rwX", self.dir], capture_output=True)
        shutil.rmtree(self.dir, ignore_errors=True)
