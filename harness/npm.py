"""Replays the server behaviours TLC enumerates from spec/PostInstall.tla and spec/Fetch.tla into
the real npm scripts, against a stand-in server on the loopback interface."""
import hashlib
import io
import json
import os
import random
import re
import shutil
import socket
import ssl
import struct
import subprocess
import tarfile
import threading
import time

import base
import gen
import gql
import judge as J
import run as R
import scen

HERE = os.path.dirname(os.path.abspath(__file__))
TLS = os.path.join(HERE, "tls")
PLATFORMS = {"linux-x64": "x86_64-unknown-linux-musl", "linux-arm64": "aarch64-unknown-linux-musl",
             "darwin-x64": "x86_64-apple-darwin", "darwin-arm64": "aarch64-apple-darwin"}
UNKNOWN = ["freebsd-x64", "linux-ia32", "sunos-x64", "linux-ppc64", "darwin-ia32"]
ELSEWHERE = {"s301", "s303", "s307", "s308"}


# ------------------------------------------------------------------ the stand-in server
class Server:
    def __init__(self, tls):
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.ctx = None
        if tls:
            self.ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            self.ctx.load_cert_chain(os.path.join(TLS, "server.pem"), os.path.join(TLS, "server.key"))
        self.plan([], b"", b"", "")
        threading.Thread(target=self.loop, daemon=True).start()

    def plan(self, script, right, wrong, onward):
        """What to answer next; connections of earlier plans are left to finish by themselves."""
        self.now = {"script": script, "right": right, "wrong": wrong, "onward": onward, "n": 0, "seen": [], "skip": set(),
                    "lock": threading.Lock(), "stop": threading.Event(), "reply": None, "files": None}
        return self.now

    def loop(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self.one, args=(c, self.now), daemon=True).start()

    def one(self, c, plan):
        try:
            c.settimeout(30)
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            if self.ctx:
                c = self.ctx.wrap_socket(c, server_side=True)
            data = b""
            while b"\r\n\r\n" not in data:
                x = c.recv(65536)
                if not x:
                    return
                data += x
            head, _, body = data.partition(b"\r\n\r\n")
            m = re.search(rb"(?i)content-length: *(\d+)", head)
            while m and len(body) < int(m.group(1)):
                x = c.recv(65536)
                if not x:
                    return
                body += x
            if re.search(rb"(?i)transfer-encoding: *chunked", head):
                while not body.endswith(b"0\r\n\r\n"):
                    x = c.recv(65536)
                    if not x:
                        return
                    body += x
                body = unchunk(body)
            with plan["lock"]:
                while plan["n"] in plan["skip"]:
                    plan["n"] += 1
                k = plan["n"]
                plan["n"] += 1
                plan["seen"].append((k, head.split(b"\r\n")[0].decode("latin1"), head.decode("latin1"), body))
            served = plan["files"](head.split(b"\r\n")[0].decode("latin1")) if plan["files"] else None
            if served is not None:
                self.answer(c, dict(plan, right=served), "full", body)
            else:
                self.answer(c, plan, answer_at(plan["script"], k), body)
        except (OSError, ssl.SSLError, ValueError):
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass

    def answer(self, c, plan, a, asked):
        right, wrong = plan["right"], plan["wrong"]
        if plan["reply"]:
            right = plan["reply"](asked)
        send = c.sendall

        def head(code, n=None, more="", reason="X"):
            h = "HTTP/1.1 %d %s\r\nConnection: close\r\n" % (code, reason)
            if n is not None:
                h += "Content-Length: %d\r\n" % n
            return (h + more + "\r\n").encode()

        def chunks(b, k=7):
            step = max(1, len(b) // k)
            return b"".join(b"%x\r\n%s\r\n" % (len(b[i:i + step]), b[i:i + step]) for i in range(0, len(b), step))

        te = "Transfer-Encoding: chunked\r\n"
        if a == "full":
            send(head(200, len(right)) + right)
        elif a == "chunked":
            send(head(200, None, te) + chunks(right) + b"0\r\n\r\n")
        elif a == "wrongchunked":
            send(head(200, None, te) + chunks(wrong) + b"0\r\n\r\n")
        elif a == "untilclose":
            send(head(200) + right)
        elif a == "slow":
            time.sleep(.3)
            send(head(200, len(right)))
            time.sleep(.2)
            send(right)
        elif a == "dribble":
            send(head(200, len(right)))
            cuts = sorted({len(right) * i // 9 + (i % 2) for i in range(1, 9)} | {0, len(right)})
            cuts = [x for x in cuts if x <= len(right)]
            for x, y in zip(cuts, cuts[1:]):
                send(right[x:y])
                time.sleep(.01)
        elif a == "wrong":
            send(head(200, len(wrong)) + wrong)
        elif a == "longer":
            b = right + b"\0more\n"
            send(head(200, len(b)) + b)
        elif a == "prefix":
            b = right[:len(right) * 2 // 3]
            send(head(200, len(b)) + b)
        elif a == "empty":
            send(head(200, 0))
        elif a in ("cut", "resetbody"):
            send(head(200, len(right)) + right[:len(right) // 2])
            time.sleep(.05)
            if a == "resetbody":
                raw = c
                raw.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        elif a == "cutlate":
            send(head(200, len(right)) + right[:-1])
            time.sleep(.05)
        elif a == "cutchunk":
            send(head(200, None, te) + chunks(right[:len(right) // 2]))
            time.sleep(.05)
        elif a == "reset":
            pass
        elif a == "garbage":
            send(b"\x16\x03 this is no answer\r\n\r\n")
        elif a in ("stall", "stallbody"):
            if a == "stallbody":
                send(head(200, len(right)) + right[:len(right) // 2])
            c.settimeout(.2)
            end = time.time() + 60
            while time.time() < end and not plan["stop"].is_set():
                try:
                    if not c.recv(100):
                        break
                except (TimeoutError, socket.timeout):
                    continue
        elif a == "s302none":
            send(head(302, 0))
        elif a == "s302bad":
            send(head(302, 0, "Location: http://github.com/elsewhere\r\n"))
        elif a == "s302loop":
            send(head(302, 0, "Location: %s\r\n" % plan["onward"]))
        elif a[0] == "s":
            code = int(a[1:])
            b = b"" if code in (204, 304) else wrong
            more = "Location: %s\r\n" % plan["onward"] if code in (301, 302, 303, 307, 308) else ""
            send(head(code, None if code in (204, 304) else len(b), more) + b)
        else:
            raise ValueError(a)
        # an orderly end: say so, then wait for the other side
        if a not in ("cut", "cutchunk", "cutlate", "reset", "garbage", "resetbody", "stall", "stallbody"):
            try:
                c.settimeout(5)
                if self.ctx:
                    c.unwrap()
                else:
                    c.shutdown(socket.SHUT_WR)
                    while c.recv(65536):
                        pass
            except (OSError, ssl.SSLError, ValueError):
                pass


def unchunk(b):
    out = b""
    while b:
        n, _, rest = b.partition(b"\r\n")
        n = int(n.split(b";")[0], 16)
        if n == 0:
            return out
        out += rest[:n]
        b = rest[n + 2:]
    return out


def answer_at(script, k):
    if k < len(script):
        return script[k]
    if script and script[-1] == "s302loop":
        return "s302loop"
    return "full" if script and script[-1] in ELSEWHERE else "s404"


_servers = {}


def server(tls):
    if tls not in _servers:
        _servers[tls] = Server(tls)
    return _servers[tls]


# ------------------------------------------------------------------ cases
def cases(module, timeout=300):
    code, out = J.tlc(module + ".tla", module + ".cfg", workers="1", timeout=timeout)
    if "No error has been found" not in out:
        raise base.ToolError("TLC on %s: %s" % (module, out[-1500:]))
    cs = J.messages(out, "CASE")
    seen = {json.dumps(c, sort_keys=True): c for c in cs}
    return [seen[k] for k in sorted(seen)], J.counts(out)


def tgz(files):
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w:gz") as t:
        for n, data, mode in files:
            i = tarfile.TarInfo(n)
            i.size = len(data)
            i.mode = mode
            t.addfile(i, io.BytesIO(data))
    return b.getvalue()


def listing(top):
    out = {}
    for d, ds, fs in os.walk(top):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), top)] = ("dir", 0)
        for x in fs:
            p = os.path.join(d, x)
            with open(p, "rb") as f:
                out[os.path.relpath(p, top)] = (hashlib.sha256(f.read()).hexdigest(), os.lstat(p).st_mode & 0o7777)
    return out


def node(args, cwd, env, timeout=25, room=None):
    """(exit code, hung, output); room: no file gets longer than this (node ignores the signal, so that
    the write fails as it does on a full disk)"""
    e = {"PATH": env.pop("PATH"), "HOME": cwd}
    e.update(env)
    for limit in (timeout, 2 * timeout):
        try:
            r = subprocess.run((["prlimit", "--fsize=%d" % room] if room else []) + [shutil.which("node")] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=limit, stdin=subprocess.DEVNULL, **base.as_user())
            return r.returncode, False, r.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as ex:
            out = (ex.stdout or b"").decode("utf-8", "replace")
            if R.HANGS is not None:
                R.HANGS[0] += 1
            break       # the directory is no longer what it was: no second try
    return -99, True, out


def borrow(sc):
    """Puts what the scripts are run with where an unprivileged user can read it."""
    for f in ("preload.js", "tls/ca.pem"):
        dst = os.path.join(os.path.dirname(sc.dir), os.path.basename(f))
        if not os.path.exists(dst):
            shutil.copy(os.path.join(HERE, f), dst)
            os.chmod(dst, 0o644)


def _open(path, owner_all=True):
    for d, ds, fs in os.walk(path):
        os.chmod(d, 0o777)


def install(sc, r, seed):
    """One case of PostInstall."""
    if R.HANGS is not None and R.HANGS[0] >= 3:
        sc.ev[:] = []
        raise R.Enough()
    case = json.loads(seed)
    st, script = case["set"], case["script"]
    pkg = os.path.join(sc.dir, "pkg")
    shutil.copytree(os.path.join(base.REPO, "pkg", "npm"), pkg)
    tmp = os.path.join(sc.dir, "tmp")
    os.mkdir(tmp)
    tools = os.path.join(sc.dir, "tools")
    os.mkdir(tools)
    with open(os.path.join(tools, "tar"), "w") as f:
        f.write('#!/bin/bash\nfor a in "$@"; do if [ -f "$a" ]; then sha256sum < "$a" | cut -c1-64 >> "$QLCV_TAR"; fi; done\n'
                'PATH=/usr/local/bin:/usr/bin:/bin exec tar "$@"\n')
    os.chmod(os.path.join(tools, "tar"), 0o755)
    version = "%d.%d.%d" % (r.randrange(9), r.randrange(20), r.randrange(9))
    plat = r.choice(UNKNOWN) if st["plat"] == "unknown" else r.choice(sorted(PLATFORMS))
    good = b"#!/bin/sh\necho verified %s\n" % version.encode() + bytes(r.randrange(256) for _ in range(3000))
    evil = b"#!/bin/sh\necho unverified\n" + bytes(r.randrange(256) for _ in range(3000))
    right = {"good": tgz([("qlc", good, 0o644)]), "junk": bytes(r.randrange(256) for _ in range(2000)),
             "hollow": tgz([("README", b"nothing\n", 0o644)])}[st["archive"]]
    wrong = tgz([("qlc", evil, 0o755)])
    sums = {t: hashlib.sha256(t.encode()).hexdigest() for t in PLATFORMS.values()}
    digest = hashlib.sha256(right).hexdigest()
    if st["plat"] == "known":
        sums[PLATFORMS[plat]] = digest
    elif st["plat"] == "unlisted":
        del sums[PLATFORMS[plat]]
        if r.random() < .5:
            sums[PLATFORMS[plat]] = ""
    pj = json.load(open(os.path.join(pkg, "package.json")))
    pj["version"] = version
    pj["checksumConfig"] = sums
    with open(os.path.join(pkg, "package.json"), "w") as f:
        json.dump(pj, f)
    binp = os.path.join(pkg, "bin", "qlc")
    old = None
    if st["bins"] == "none":
        shutil.rmtree(os.path.join(pkg, "bin"))
    else:
        os.chmod(binp, 0o644)
        old = hashlib.sha256(open(binp, "rb").read()).hexdigest()
    archive = "qlc-%s-%s.tar.gz" % (version, PLATFORMS.get(plat, "none"))
    if st["dest"] == "stale":
        with open(os.path.join(pkg, archive), "wb") as f:
            f.write(wrong if r.random() < .5 else b"left over")
    elif st["dest"] == "blocked":
        os.mkdir(os.path.join(pkg, archive))
    subprocess.run(["chmod", "-R", "a+rwX", sc.dir])
    if st["bins"] == "dir":
        os.chmod(binp, 0o666)
    before = listing(sc.dir)

    srv = server(True)
    plan = srv.plan(script, right, wrong, "https://objects.githubusercontent.com/x/y?z=1")
    plan["skip"] |= {i for i, a in enumerate(script) if a == "refuse"}
    log = sc.dir + ".log"
    tarlog = sc.dir + ".tar"
    for p in (log, tarlog):
        open(p, "w").close()
        os.chmod(p, 0o666)
    env = {"PATH": tools + ":/usr/local/bin:/usr/bin:/bin", "TMPDIR": tmp, "NODE_EXTRA_CA_CERTS": os.path.join(sc.dir, "..", "ca.pem"),
           "NODE_OPTIONS": "--require=" + os.path.join(sc.dir, "..", "preload.js"), "QLCV_PORT": str(srv.port), "QLCV_LOG": log,
           "QLCV_TAR": tarlog, "QLCV_PLATFORM": plat, "QLCV_REFUSE": ",".join(str(i) for i, a in enumerate(script) if a == "refuse"),
           "QLCV_SCALE": "20" if any(a.startswith("stall") for a in script) else "1"}
    borrow(sc)
    code, hung, out = node(["./lib/postinstall.js"], pkg, env, room=len(right) // 2 if st["dest"] == "full" else None)
    plan["stop"].set()
    after = listing(sc.dir)

    conns = [json.loads(l) for l in open(log) if l.strip()]
    tars = open(tarlog).read().split()
    for p in (log, tarlog):
        os.unlink(p)
    seen = {k: line for k, line, head, body in plan["seen"]}
    sc.ev[:] = [{"e": "begin", "id": sc.id, "which": "install", "set": st}]
    want = "GET /notarize/qlc/releases/download/%s/%s " % (version, archive)
    for i, c in enumerate(conns):
        place = True
        if i == 0:
            place = c["host"] == "github.com" and (i not in seen or seen[i].startswith(want))
        sc.emit({"e": "answer", "a": answer_at(script, c["k"]), "first": i == 0, "place": place})
    for t in tars:
        sc.emit({"e": "unpack", "match": t == digest})
    b = after.get("pkg/bin/qlc")
    bin_ = "old" if (b is None and old is None) or (b and b[0] == old) else \
        "verified" if b and b[0] == hashlib.sha256(good).hexdigest() else "other"
    changed = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
    arch = {p for p in after if after[p][0] != "dir" and (p.endswith(".tar.gz") or p.startswith("tmp/"))}
    others = sorted(p for p in changed - {"pkg/bin/qlc", "pkg/bin"} if not p.endswith(".tar.gz") and not p.startswith("tmp/"))
    sc.emit({"e": "end", "code": code, "hung": hung, "bin": bin_, "exec": bool(b and b[1] & 0o111), "left": bool(arch),
             "others": bool(others)})
    sc.note({"case": case, "platform": plat, "output": out[-1500:], "changed": sorted(changed), "connections": conns})
    return {"answers": script}


# ------------------------------------------------------------------ the schema download
TOKEN = re.compile(r'"(?:[^"\\]|\\.)*"|\.\.\.|[A-Za-z_]\w*|-?\d+|[{}()\[\]:$!=@]')


def parse_query(text):
    """A minimal reader of executable documents: {operations, fragments}."""
    toks = TOKEN.findall(re.sub(r"#[^\n]*", "", text))
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def take(x=None):
        t = peek()
        if t is None or (x is not None and t != x):
            raise ValueError("unexpected %r" % t)
        pos[0] += 1
        return t

    def value():
        t = take()
        if t == "[":
            out = []
            while peek() != "]":
                out.append(value())
            take()
            return out
        return {"true": True, "false": False, "null": None}.get(t, t)

    def args():
        out = {}
        if peek() == "(":
            take()
            while peek() != ")":
                n = take()
                take(":")
                out[n] = value()
            take()
        return out

    def sel():
        take("{")
        out = []
        while peek() != "}":
            if peek() == "...":
                take()
                if peek() == "on":
                    take()
                    take()
                    out.append(("inline", sel()))
                elif peek() == "{":
                    out.append(("inline", sel()))
                else:
                    out.append(("spread", take()))
            else:
                key = name = take()
                if peek() == ":":
                    take()
                    name = take()
                a = args()
                out.append(("field", key, name, a, sel() if peek() == "{" else None))
        take("}")
        return out

    ops, frags = [], {}
    while peek() is not None:
        if peek() == "{":
            ops.append(sel())
        elif peek() == "fragment":
            take()
            n = take()
            take("on")
            take()
            frags[n] = sel()
        else:
            take()
            if peek() not in ("{", "("):
                take()
            args()
            ops.append(sel())
    return ops, frags


def execute(text, data):
    """The answer of a server with the given introspection data."""
    ops, frags = parse_query(text)

    def run(sel, d, out):
        for s in sel:
            if s[0] == "inline":
                run(s[1], d, out)
            elif s[0] == "spread":
                run(frags[s[1]], d, out)
            else:
                _, key, name, a, sub = s
                if name == "__typename":
                    out[key] = "__Type"
                    continue
                if name not in d:
                    raise ValueError("no field " + name)
                v = d[name]
                if isinstance(v, list) and name in ("fields", "enumValues", "inputFields", "args") and a.get("includeDeprecated") is not True:
                    v = [x for x in v if not x.get("isDeprecated")]
                if isinstance(v, list):
                    out[key] = [run(sub, x, dict(o)) if sub else x for x, o in zip(v, _old(out.get(key), len(v)))]
                elif isinstance(v, dict):
                    if sub is None:
                        raise ValueError("needs a selection: " + name)
                    out[key] = run(sub, v, dict(out.get(key) or {}))
                else:
                    out[key] = v
        return out

    def _old(x, n):
        return x if isinstance(x, list) and len(x) == n else [{}] * n

    if len(ops) != 1:
        raise ValueError("one operation")
    return {"data": run(ops[0], data, {})}


def full_data(S):
    """Introspection data with every field of the introspection schema."""
    j = gql.introspection(S, None)
    d = j.get("data", j)
    s = d["__schema"]
    s.setdefault("directives", [])
    for k in ("queryType", "mutationType", "subscriptionType"):
        s.setdefault(k, None)
    s.setdefault("description", None)

    def tr(t):
        if t is None:
            return None
        return {"kind": t["kind"], "name": t.get("name"), "description": None, "ofType": tr(t.get("ofType"))}

    def iv(x):
        return {"name": x["name"], "description": x.get("description"), "type": tr(x["type"]), "defaultValue": x.get("defaultValue"),
                "isDeprecated": False, "deprecationReason": None}
    for t in s["types"]:
        for k in ("name", "description", "fields", "inputFields", "interfaces", "enumValues", "possibleTypes", "ofType", "specifiedByURL"):
            t.setdefault(k, None)
        if t["fields"] is not None:
            t["fields"] = [{"name": f["name"], "description": f.get("description"), "args": [iv(a) for a in f.get("args") or []],
                            "type": tr(f["type"]), "isDeprecated": bool(f.get("isDeprecated")),
                            "deprecationReason": "old" if f.get("isDeprecated") else None} for f in t["fields"]]
        if t["inputFields"] is not None:
            t["inputFields"] = [iv(f) for f in t["inputFields"]]
        if t["enumValues"] is not None:
            t["enumValues"] = [{"name": v["name"], "description": v.get("description"), "isDeprecated": i % 3 == 2, "deprecationReason": None}
                               for i, v in enumerate(t["enumValues"])]
        for k in ("interfaces", "possibleTypes"):
            if t[k] is not None:
                t[k] = [tr(x) for x in t[k]]
    return {"__schema": s}


def essence(j):
    """What the compiler reads of an introspection result."""
    def tr(t):
        return None if t is None else (t["kind"], t["name"] if t["kind"] not in ("LIST", "NON_NULL") else None, tr(t.get("ofType")) if t["kind"] in ("LIST", "NON_NULL") else None)
    out = {}
    for t in j["data"]["__schema"]["types"]:
        k = t["kind"]
        e = {"kind": k, "description": t["description"]}
        if k in ("OBJECT", "INTERFACE"):
            e["fields"] = {f["name"]: (f["description"], tr(f["type"]), bool(f["isDeprecated"])) for f in t["fields"]}
        if k in ("INTERFACE", "UNION"):
            e["possible"] = sorted(x["name"] for x in t["possibleTypes"])
        if k == "ENUM":
            e["values"] = [v["name"] for v in t["enumValues"]]
        if k == "INPUT_OBJECT":
            e["inputs"] = {f["name"]: (f["description"], tr(f["type"])) for f in t["inputFields"]}
        out[t["name"]] = e
    return out


def everything(S, query):
    """Does the query ask for all of it?"""
    d = full_data(S)
    try:
        got = essence(execute(query, d))
    except (ValueError, KeyError, TypeError, IndexError):
        return False
    full = essence({"data": d})
    return got == full


def plain_schema(r):
    return gen.schema(r, deep=3, inputs=2)


def fetch(sc, r, seed):
    """One case of Fetch."""
    if R.HANGS is not None and R.HANGS[0] >= 3:
        sc.ev[:] = []
        raise R.Enough()
    case = json.loads(seed)
    st, script = case["set"], case["script"]
    work = os.path.join(sc.dir, "work")
    os.mkdir(work)
    S = plain_schema(r)
    body = {"small": lambda: b'{"data":{"__schema":{"types":[]}}}',
            "big": lambda: json.dumps({"data": ["x" * r.randrange(100)] * 40000}).encode(),
            "wide": lambda: json.dumps({"data": "\u00fc\u4e2d\U0001f600" * 9000}, ensure_ascii=False).encode()}[st["content"]]()
    out = {"default": None, "given": r.choice(["out.json", "sub/deep.json", "./my schema.json", os.path.join(work, "abs.json"), "schema", "sub.d/schema", "out.JSON",
                                               "a.b", ".hidden", "introspection.graphql", "sub/../up.json", "schema.json.txt"]),
           "nodir": r.choice(["missing/out.json", "missing/schema.json", "missing/x"]), "dir": r.choice(["taken.json", None]), "full": r.choice(["full.json", None])}[st["out"]]
    path = os.path.join(work, out or "schema.json")
    if st["out"] == "given":
        os.makedirs(os.path.dirname(path), exist_ok=True)
    if st["out"] == "dir":
        os.mkdir(path)
    with open(os.path.join(work, "bystander.json"), "w") as f:
        f.write("{}")
    if out is not None:
        with open(os.path.join(work, "schema.json"), "w") as f:
            f.write("the default one, not to be touched")
    oldtext = b'{"data": "the schema of yesterday, much longer than a small one, so that what is left of it shows"}'
    if st["old"] == "there":
        with open(path, "wb") as f:
            f.write(oldtext)
    subprocess.run(["chmod", "-R", "a+rwX", sc.dir])
    before = listing(sc.dir)
    srv = server(st["endpoint"] == "https")
    plan = srv.plan(script, body, body, "%s://localhost:%d/next" % (st["endpoint"], srv.port))
    closed = socket.socket()
    closed.bind(("127.0.0.1", 0))
    ep = {"http": "http://127.0.0.1:%d/graphql?x=1" % srv.port, "https": "https://localhost:%d/graphql" % srv.port,
          "bad": r.choice(["not a url", "http://", "//x", "ftp://127.0.0.1/x", "file:///etc/hostname", "localhost:%d/graphql" % srv.port]),
          "down": "http://127.0.0.1:%d/" % closed.getsockname()[1], "none": None}[st["endpoint"]]
    args = ["/usr/bin/false"]
    entry = os.path.join(base.REPO, "pkg", "npm")
    copy = os.path.join(os.path.dirname(sc.dir), "npm-copy")
    if not os.path.exists(copy):
        shutil.copytree(entry, copy)
        subprocess.run(["chmod", "-R", "a+rX", copy])
    args = [os.path.join(copy, "bin", "qlc-download-schema")]
    if ep is not None:
        args.append(ep)
        if out is not None:
            args.append(out)
    elif out is not None and r.random() < .5:
        args += ["", out]
    ca = os.path.join(os.path.dirname(sc.dir), "ca.pem")
    if not os.path.exists(ca):
        shutil.copy(os.path.join(TLS, "ca.pem"), ca)
        os.chmod(ca, 0o644)
    code, hung, text = node(args, work, {"PATH": "/usr/local/bin:/usr/bin:/bin", "NODE_EXTRA_CA_CERTS": ca},
                            room=max(10, len(body) // 2) if st["out"] == "full" else None)
    closed.close()
    plan["stop"].set()
    after = listing(sc.dir)
    sc.ev[:] = [{"e": "begin", "id": sc.id, "which": "fetch", "set": st}]
    for k, line, head, asked in plan["seen"]:
        ok = line.startswith("POST /") and query_of(asked) is not None and everything(S, query_of(asked))
        sc.emit({"e": "answer", "a": answer_at(script, k), "first": k == 0, "place": ok})
    rel = os.path.relpath(path, sc.dir)
    f = after.get(rel)
    h = lambda b: hashlib.sha256(b).hexdigest()
    file = "none" if f is None or f[0] == "dir" else "body" if f[0] == h(body) else \
        "old" if st["old"] == "there" and f[0] == h(oldtext) else "other"
    changed = {p for p in set(before) | set(after) if before.get(p, (0,))[0] != after.get(p, (0,))[0]}
    sc.emit({"e": "end", "code": code, "hung": hung, "file": file, "others": bool(changed - {rel}), "bin": "", "exec": False, "left": False})
    sc.note({"case": case, "args": args[1:], "output": text[-1500:], "changed": sorted(changed)})
    return {}


def query_of(asked):
    try:
        return json.loads(asked)["query"]
    except (ValueError, KeyError, TypeError):
        return None


def downloaded(sc, r, seed):
    """The real command against a server that executes its query; then the compiler on the result."""
    import families as F
    S = gen.schema(r, depr=.3, deep=3, inputs=2)
    for t in S["types"].values():
        if t["k"] == "INPUT_OBJECT":
            for f in t["f"].values():
                f["d"] = False
    srv = server(False)
    plan = srv.plan(["full"], b"", b"", "")
    data = full_data(S)

    def reply(asked):
        try:
            return json.dumps(execute(query_of(asked), data)).encode()
        except (ValueError, KeyError, TypeError, IndexError) as ex:
            return json.dumps({"errors": [str(ex)]}).encode()
    plan["reply"] = reply
    work = os.path.join(os.path.dirname(sc.dir), "fetched-" + str(os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.mkdir(work)
    os.chmod(work, 0o777)
    copy = os.path.join(os.path.dirname(sc.dir), "npm-copy")
    if not os.path.exists(copy):
        shutil.copytree(os.path.join(base.REPO, "pkg", "npm"), copy)
        subprocess.run(["chmod", "-R", "a+rX", copy])
    code, hung, text = node([os.path.join(copy, "bin", "qlc-download-schema"), "http://127.0.0.1:%d/graphql" % srv.port], work,
                            {"PATH": "/usr/local/bin:/usr/bin:/bin"})
    p = os.path.join(work, "schema.json")
    got = open(p, "rb").read().decode("utf-8", "replace") if os.path.exists(p) else ""
    shutil.rmtree(work, ignore_errors=True)
    sc.note({"download": text[-800:], "code": code})
    sc.put_schema("schema.json", S, text=got)
    c = scen.rand_cli(r, "root")
    c["depr"] = True
    c["schema"] = ["schema.json"]
    sc.put_dir("root")
    scen.world(sc, r, S, c, nfrag=2, ndoc=6)
    T = S["types"]
    glob = [n for n, t in T.items() if t["k"] in ("INPUT_OBJECT", "ENUM")]
    sc.put_doc("root/all.graphql", {"op": "query", "name": "All", "on": "", "vars": [
        {"name": "v%d" % i, "w": [], "n": n, "pos": [0, 0]} for i, n in enumerate(glob)], "sel": [F._leaf("__typename")]}, [], r)
    sc.run(c)
