"""Paths, environment, building the program under test, reporting."""
import fcntl
import hashlib
import json
import os
import pwd
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QLC_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JOBS = 8


class ToolError(Exception):
    pass


def scale(quick, thorough):
    return thorough if THOROUGH else quick


# ------------------------------------------------------------------ building
def _env():
    env = dict(os.environ)
    p = "/opt/vp/env.sh"
    if os.path.exists(p):
        out = subprocess.run(["bash", "-c", ". %s >/dev/null 2>&1; env -0" % p], capture_output=True).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                env[k.decode()] = v.decode(errors="replace")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    return env


def source_hash():
    h = hashlib.sha256()
    for top in ("src", "Cargo.toml", "Cargo.lock", "build.rs", ".cargo"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            h.update(top.encode() + b"\0" + open(p, "rb").read() + b"\0")
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                q = os.path.join(d, f)
                h.update(os.path.relpath(q, REPO).encode() + b"\0" + open(q, "rb").read() + b"\0")
    for f in ("verif_rt.rs",):
        h.update(open(os.path.join(VERIF, "hook", f), "rb").read())
    return h.hexdigest()


def _build(kind):
    """kind: plain | hooked. Returns the path of a copy of the binary named by the sources' hash,
    or None if a hooked build is not possible."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock-" + kind), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        tag = source_hash()[:24]
        binp = os.path.join(WORK, "bin", "qlc-%s-%s" % (kind, tag))
        miss = binp + ".none"
        if os.path.exists(binp):
            return binp
        if os.path.exists(miss):
            return None
        target = os.path.join(WORK, "target-" + kind)
        env = _env()
        env["CARGO_TARGET_DIR"] = target
        if kind == "hooked":
            env["RUSTFLAGS"] = "--cfg qlc_verif"
            env["QLC_VERIF_RT"] = os.path.join(VERIF, "hook", "verif_rt.rs")
        # cargo goes by modification times: make it look at the sources again
        subprocess.run(["cargo", "clean", "--offline", "-p", "qlc"], cwd=REPO, env=env, capture_output=True)
        out = os.path.join(target, "debug", "qlc")
        if os.path.exists(out):
            os.unlink(out)
        r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=REPO, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        os.makedirs(os.path.dirname(binp), exist_ok=True)
        if r.returncode != 0 or not os.path.exists(out):
            if kind == "hooked":
                with open(miss, "w") as f:
                    f.write(r.stdout)
                return None
            raise ToolError("build failed:\n" + r.stdout[-3000:])
        for old in os.listdir(os.path.dirname(binp)):
            if old.startswith("qlc-%s-" % kind):
                os.unlink(os.path.join(os.path.dirname(binp), old))
        shutil.copy(out, binp + ".tmp")
        os.chmod(binp + ".tmp", 0o755)
        os.rename(binp + ".tmp", binp)
        return binp


def build_plain():
    return _build("plain")


def build_hooked():
    return _build("hooked")


# ------------------------------------------------------------------ scratch
def _can_drop():
    try:
        r = subprocess.run(["/bin/true"], user="nobody", group="nogroup", extra_groups=[])
        return r.returncode == 0
    except Exception:
        return False


DROP = os.geteuid() == 0 and _can_drop()


class Scratch:
    """A scratch directory an unprivileged user can reach, removed at the end."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="qlcv-", dir="/tmp")
        os.chmod(self.path, 0o777)
        return self

    def __exit__(self, *a):
        subprocess.run(["chmod", "-R", "u+rwX", self.path], capture_output=True)
        shutil.rmtree(self.path, ignore_errors=True)

    def binary(self, src):
        dst = os.path.join(self.path, os.path.basename(src))
        if not os.path.exists(dst):
            shutil.copy(src, dst)
            os.chmod(dst, 0o755)
        return dst


def as_user():
    return dict(user="nobody", group="nogroup", extra_groups=[]) if DROP else {}


# ------------------------------------------------------------------ reporting
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.known = []

    def add(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def sample(self, s, most=3):
        if len(self.cov["samples"]) < most:
            self.cov["samples"].append(s)

    def violation(self, what, replay):
        """replay: JSON-able description or a directory to keep; the path is printed."""
        self.violations.append(what)
        d = os.path.join(WORK, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations)))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": what, "replay": replay}, f, indent=1, default=str)
        if len(self.violations) <= 20:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("  " + str(what)[:600])
            sys.stdout.flush()

    def known_finding(self, what):
        self.known.append(what)
        print("KNOWN-FINDING: property=%s %s" % (self.pid, what))

    def finish(self):
        self.cov["violations"] = len(self.violations)
        self.cov["known_findings"] = len(self.known)
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %s in %.1f s: %s" % (self.pid, "VIOLATED" if self.violations else "held", ev["wall_s"],
                                        {k: v for k, v in self.cov.items() if k != "samples"}))
        return 1 if self.violations else 0
