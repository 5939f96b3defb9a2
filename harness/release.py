"""Replays the releases TLC enumerates from spec/Release.tla: the release scripts with stand-ins for the tools that
upload and publish, then the published package's post-install script on every platform of the release."""
import hashlib
import json
import os
import random
import shutil
import subprocess
import tarfile

import base
import npm
import run as R

TOOLS = {
    "ghr": '#!/bin/bash\necho ghr >> "$QLCV_LOG/calls"\nprintf "%s\\n" "$@" > "$QLCV_LOG/ghr"\n'
           'for d in "${@: -1}"; do cp -r "$d" "$QLCV_LOG/uploaded.$$"; done\n[ "$QLCV_GHR" = ok ]\n',
    "yarn": '#!/bin/bash\necho yarn >> "$QLCV_LOG/calls"\nprintf "%s\\n" "$@" > "$QLCV_LOG/yarn"\n'
            'cp -r . "$QLCV_LOG/published.$$"\n[ "$QLCV_YARN" = ok ]\n',
    "npm": '#!/bin/bash\nexec yarn "$@"\n',
}


def option(args, *names):
    for i, a in enumerate(args):
        if a in names and i + 1 < len(args):
            return args[i + 1]
    return ""


def version_of(kind, r):
    v = "%d.%d.%d" % (r.randrange(12), r.randrange(30), r.randrange(12))
    return v + {"final": "", "alpha": "-alpha.%d", "beta": "-beta.%d"}[kind] % (() if kind == "final" else r.randrange(12))


def says(binary):
    """How the program announces its version, as a function of the version."""
    r = subprocess.run([binary, "--version"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
    text = r.stdout.decode("utf-8", "replace")
    want = None
    for line in open(os.path.join(base.REPO, "Cargo.toml")):
        if line.startswith("version"):
            want = line.split('"')[1]
            break
    return lambda v: text.replace(want, v)


def packed(src, dst):
    """What npm would put into a package made of the directory."""
    pj = json.load(open(os.path.join(src, "package.json")))
    os.mkdir(dst)
    for x in ["package.json", "README.md"] + pj.get("files", []):
        p = os.path.join(src, x)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(dst, x))
        elif os.path.exists(p):
            shutil.copy(p, os.path.join(dst, x))
    return pj


def refers(pj):
    out = [pj.get("main"), pj.get("types")] + list(pj.get("bin", {}).values())
    for k, v in pj.get("exports", {}).items():
        out += [v, v[:-3] + ".d.ts"] if v.endswith(".js") else [v]
    return [x for x in out if x] + (["lib/postinstall.js"] if "postinstall" in pj.get("scripts", {}) else ["<no post-install>"])


def release(sc, r, seed):
    if R.HANGS is not None and R.HANGS[0] >= 3:
        sc.ev[:] = []
        raise R.Enough()
    job = json.loads(seed)
    st = job["set"]
    r = random.Random("%s/%s" % (seed, base.SEED))
    w = os.path.join(sc.dir, "w")
    log = os.path.join(sc.dir, "log")
    tools = os.path.join(sc.dir, "tools")
    for d in (w, log, tools):
        os.mkdir(d)
    for n, text in TOOLS.items():
        with open(os.path.join(tools, n), "w") as f:
            f.write(text)
        os.chmod(os.path.join(tools, n), 0o755)
    shutil.copytree(os.path.join(base.REPO, ".circleci"), os.path.join(w, ".circleci"))
    os.mkdir(os.path.join(w, "pkg"))
    shutil.copytree(os.path.join(base.REPO, "pkg", "npm"), os.path.join(w, "pkg", "npm"))
    version = version_of(st["ver"], r)
    older = version_of(r.choice(["final", "alpha", "beta"]), r)
    while older == version:
        older = version_of("final", r)
    announce = says(sc.bin)(version)
    plats = npm.PLATFORMS
    bins = {}
    for p in plats.values():
        bins[p] = b"#!/bin/sh\n# " + p.encode() + b"\ncat <<'END'\n" + announce.encode() + b"END\nexit\n" + bytes(r.randrange(256) for _ in range(500))
        if p == st["missing"]:
            continue
        d = os.path.join(w, "target", p, "release")
        os.makedirs(d)
        with open(os.path.join(d, "qlc"), "wb") as f:
            f.write(bins[p])
        os.chmod(os.path.join(d, "qlc"), 0o755)
        with open(os.path.join(d, "qlc.d"), "w") as f:
            f.write("other build output\n")
    arch = os.path.join(w, "archives")
    if st["left"] != "none":
        os.mkdir(arch)
        v = version if st["left"] == "same" else older
        sums = []
        for p in plats.values():
            n = "qlc-%s-%s.tar.gz" % (v, p)
            data = npm.tgz([("qlc", b"an earlier attempt", 0o755)])
            with open(os.path.join(arch, n), "wb") as f:
                f.write(data)
            sums.append("%s  %s\n" % (hashlib.sha256(data).hexdigest(), os.path.join(arch, n)))
        with open(os.path.join(arch, "checksums.txt"), "w") as f:
            f.writelines(sums)
    subprocess.run(["chmod", "-R", "a+rwX", sc.dir])
    env = {"PATH": tools + ":/usr/local/bin:/usr/bin:/bin", "HOME": w, "CIRCLE_WORKING_DIRECTORY": w, "CIRCLE_SHA1": "0123abcd" * 5,
           "GITHUB_TOKEN": "token", "QLCV_LOG": log, "QLCV_GHR": st["ghr"], "QLCV_YARN": st["yarn"], "LC_ALL": r.choice(["C", "C.UTF-8"])}

    def script(name):
        x = subprocess.run(["bash", os.path.join(w, ".circleci", "bin", name)], cwd=w, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, **base.as_user())
        sc.note({"script": name, "code": x.returncode, "output": x.stdout.decode("utf-8", "replace")[-1500:]})
        return x.returncode

    def called(what):
        try:
            calls = open(os.path.join(log, "calls")).read().split().count(what)
            args = open(os.path.join(log, what)).read().split("\n")[:-1]
        except OSError:
            return 0, [], None
        made = sorted(x for x in os.listdir(log) if x.startswith({"ghr": "uploaded.", "yarn": "published."}[what]))
        return calls, args, os.path.join(log, made[-1]) if made else None

    sc.ev[:] = [{"e": "begin", "id": sc.id, "set": st}]
    code = script("make-github-release.sh")
    calls, args, up = called("ghr")
    archives = {}
    for p in plats.values():
        f = os.path.join(up or "/nowhere", "qlc-%s-%s.tar.gz" % (version, p))
        if not os.path.exists(f):
            continue
        data = open(f, "rb").read()
        a = {"digest": hashlib.sha256(data).hexdigest(), "holds": "", "only": False}
        try:
            with tarfile.open(f) as t:
                ms = t.getmembers()
                a["only"] = [m.name for m in ms] in (["qlc"], ["./qlc"])
                body = t.extractfile(ms[0]).read() if ms else b""
                a["holds"] = next((q for q, b in bins.items() if b == body), "")
        except (tarfile.TarError, EOFError, OSError, AttributeError):
            pass
        archives[p] = a
    sc.emit({"e": "github", "code": code, "calls": calls, "named": version in args, "pre": "-prerelease" in args, "archives": archives or {"none": {"digest": "", "holds": "", "only": False}}})
    if code != 0:
        return {}

    # the package is made elsewhere, from the checksums alone
    if st["lost"]:
        f = os.path.join(arch, "checksums.txt")
        lines = [x for x in open(f) if "qlc-%s-%s." % (version, st["lost"]) not in x]
        with open(f, "w") as h:
            h.writelines(lines)
    code = script("make-npm-release.sh")
    calls, args, made = called("yarn")
    out = os.path.join(sc.dir, "package")
    ev = {"e": "npm", "code": code, "calls": calls, "version": False, "sums": {"none": ""}, "whole": False, "dist": option(args, "--tag")}
    if made:
        try:
            pj = packed(made, out)
            ev["version"] = pj.get("version") == version and option(args, "--new-version") in ("", version)
            ev["sums"] = pj.get("checksumConfig") or ev["sums"]
            ev["whole"] = all(os.path.isfile(os.path.join(out, x)) for x in refers(pj)) and "@QLC" not in json.dumps(pj) and "_CHECKSUM@" not in json.dumps(pj)
        except (ValueError, OSError) as x:
            sc.note({"package": str(x)})
    sc.emit(ev)
    if code != 0:
        return {}
    subprocess.run(["chmod", "-R", "a+rwX", sc.dir])
    for plat, p in sorted(plats.items()):
        sc.emit(dict({"e": "install", "plat": p}, **place(sc, out, up, plat, version, bins)))
    return {}


def place(sc, package, up, plat, version, bins):
    """Installs a copy of the package; the server has what was uploaded."""
    pkg = os.path.join(sc.dir, "at-" + plat)
    shutil.copytree(package, pkg)
    subprocess.run(["chmod", "-R", "a+rwX", pkg])
    srv = npm.server(True)
    plan = srv.plan(["s404"], b"", b"", "https://objects.githubusercontent.com/x")

    def files(line):
        parts = line.split(" ")
        prefix = "/notarize/qlc/releases/download/%s/" % version
        if len(parts) < 2 or not parts[1].startswith(prefix):
            return None
        f = os.path.join(up, parts[1][len(prefix):])
        return open(f, "rb").read() if os.path.isfile(f) else None
    plan["files"] = files
    log = os.path.join(sc.dir, "log", "connections")
    open(log, "w").close()
    os.chmod(log, 0o666)
    env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "TMPDIR": pkg, "NODE_EXTRA_CA_CERTS": os.path.join(sc.dir, "..", "ca.pem"),
           "NODE_OPTIONS": "--require=" + os.path.join(sc.dir, "..", "preload.js"), "QLCV_PORT": str(srv.port), "QLCV_LOG": log,
           "QLCV_PLATFORM": plat, "QLCV_REFUSE": "", "QLCV_SCALE": "1"}
    npm.borrow(sc)
    code, hung, out = npm.node(["./lib/postinstall.js"], pkg, env)
    plan["stop"].set()
    sc.note({"platform": plat, "code": code, "output": out[-1000:]})
    b = os.path.join(pkg, "bin", "qlc")
    data = open(b, "rb").read() if os.path.isfile(b) else b""
    return {"code": code, "holds": next((q for q, x in bins.items() if x == data), ""), "exec": os.path.isfile(b) and bool(os.stat(b).st_mode & 0o111)}
