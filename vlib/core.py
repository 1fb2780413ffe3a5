"""Shared plumbing of the checks: builds, child processes, verdicts, evidence."""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
TRIPLE = "x86_64-unknown-linux-gnu"
NCPU = os.cpu_count() or 4


class Inconclusive(Exception):
    """The check could not decide: neither held nor violated."""


def env_tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def env_seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1")) % (1 << 63)
    except ValueError:
        return 1


def note(msg):
    print(msg, flush=True)


# ---------------------------------------------------------------- builds

def source_hash(*extra):
    """Content of everything a harness is built from."""
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "projects"),) + extra:
        for d, subs, fs in os.walk(root):
            subs[:] = sorted(s for s in subs if s not in ("target", ".git", "node_modules"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".pest", ".lock")):
                    files.append(os.path.join(d, f))
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


BASE_ENV = {
    "CARGO_NET_OFFLINE": "true",
    "CARGO_TERM_COLOR": "never",
    "CARGO_INCREMENTAL": "0",
}


def cargo_env(target_dir, rustflags=None, more=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS", "MIRI_SYSROOT", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(BASE_ENV)
    e.setdefault("HOME", "/root")
    if not any("cargo/bin" in p for p in e.get("PATH", "").split(":")):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["CARGO_TARGET_DIR"] = target_dir
    if rustflags:
        e["RUSTFLAGS"] = rustflags
    if more:
        e.update(more)
    return e


class Harness:
    """One harness crate and its build flavours. Every flavour has a target directory of its own."""

    def __init__(self, name, crate_dir, local_crates, sources):
        self.name = name
        self.dir = crate_dir
        self.local = local_crates
        self.sources = sources
        self._hash = None

    def hash(self):
        if self._hash is None:
            self._hash = source_hash(*self.sources)
        return self._hash

    FLAVOURS = {
        # name: (profile, rustflags, features, target, extra cargo arguments)
        "debug": ("dev", None, [], None, []),
        "release": ("release", None, [], None, []),
        "fast": ("fast", None, ["count"], None, []),
        "chk": ("chk", None, [], None, []),
        "asan": ("san", "-Zsanitizer=address", [], TRIPLE, []),
        "tsan": ("san", "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer", [], TRIPLE, ["-Zbuild-std"]),
    }

    def target_dir(self, flavour):
        return os.path.join(TARGET, self.name, flavour)

    def freshen(self, td):
        """cargo decides by modification time; decide by content instead"""
        os.makedirs(td, exist_ok=True)
        stamp = os.path.join(td, "source.hash")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != self.hash():
            for f in glob.glob(os.path.join(td, "**", ".fingerprint", "*"), recursive=True):
                base = os.path.basename(f)
                if any(base.startswith(c + "-") for c in self.local):
                    shutil.rmtree(f, ignore_errors=True)
            # cargo's newer layout: build/<package>/<hash>/fingerprint
            for c in self.local:
                for f in glob.glob(os.path.join(td, "**", "build", c, "*", "fingerprint"), recursive=True):
                    shutil.rmtree(f, ignore_errors=True)
            if os.path.exists(stamp):
                os.remove(stamp)
        return stamp

    def build(self, flavour):
        prof, flags, feats, target, extra = self.FLAVOURS[flavour]
        td = self.target_dir(flavour)
        stamp = self.freshen(td)
        cmd = ["cargo", "+nightly", "build", "--offline", "--profile", prof] + extra
        if feats:
            cmd += ["--features", ",".join(feats)]
        if target:
            cmd += ["--target", target]
        p = subprocess.run(cmd, cwd=self.dir, env=cargo_env(td, flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            note(p.stdout[-4000:])
            raise Inconclusive("building %s (%s) failed" % (self.name, flavour))
        with open(stamp, "w") as f:
            f.write(self.hash())
        d = {"dev": "debug"}.get(prof, prof)
        return os.path.join(td, target or "", d, self.name)

    def build_all(self, flavours):
        with concurrent.futures.ThreadPoolExecutor(max(1, len(flavours))) as ex:
            fut = {f: ex.submit(self.build, f) for f in flavours}
            return {f: v.result() for f, v in fut.items()}

    def miri_prepare(self):
        td = self.target_dir("miri")
        stamp = self.freshen(td)
        p = run(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--", "nothing"], cwd=self.dir, env=cargo_env(td), timeout=600)
        if "usage:" not in p.err:
            note(p.err[-4000:])
            raise Inconclusive("building %s under Miri failed" % self.name)
        with open(stamp, "w") as f:
            f.write(self.hash())

    def miri(self, args, stdin="", flags="", timeout=600):
        td = self.target_dir("miri")
        return run(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--"] + args, cwd=self.dir,
                   env=cargo_env(td, None, {"MIRIFLAGS": "-Zmiri-disable-isolation " + flags}), stdin=stdin, timeout=timeout)


# ---------------------------------------------------------------- child processes

class Proc:
    def __init__(self, rc, out, err, timed_out, wall):
        self.rc, self.out, self.err, self.timed_out, self.wall = rc, out, err, timed_out, wall

    @property
    def answers(self):
        """the lines a harness printed as answers"""
        return [l[2:] for l in self.out.splitlines() if l.startswith("= ")]

    @property
    def crashed(self):
        return not self.timed_out and self.rc is not None and (self.rc < 0 or self.rc >= 128)


def run(cmd, stdin="", timeout=300, cwd=None, env=None):
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True)
    data = stdin.encode("utf-8", "surrogateescape") if isinstance(stdin, str) else stdin
    try:
        out, err = p.communicate(data, timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, err = p.communicate()
        to = True
    return Proc(p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), to, time.time() - t0)


def parallel(jobs, workers=NCPU):
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(lambda j: j(), jobs))


# ---------------------------------------------------------------- known findings

def known(prop):
    """[(signature, text)] of the findings recorded for a property"""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) signature=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


# ---------------------------------------------------------------- verdicts

class Report:
    def __init__(self, prop, level="exploration"):
        self.prop, self.level = prop, level
        self.tier, self.seed = env_tier(), env_seed()
        self.t0 = time.time()
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.violations = []
        self.findings = []
        os.makedirs(OUT, exist_ok=True)
        os.makedirs(EVIDENCE, exist_ok=True)
        ev = os.path.join(EVIDENCE, prop + ".json")
        if os.path.exists(ev):
            os.remove(ev)

    def violation(self, message, replay):
        """replay: a JSON-able description that `run.py --replay` can execute again"""
        self.violations.append((message, replay))

    def finding(self, sig, text):
        if (sig, text) not in self.findings:
            self.findings.append((sig, text))

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def finish(self):
        for k, what in self.findings:
            note("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": self.cov,
            "wall_s": round(time.time() - self.t0, 3),
        }
        self.cov["known_findings_observed"] = [s for s, _ in self.findings]
        self.cov["violations_observed"] = len(self.violations)
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        if self.violations:
            for i, (msg, rep) in enumerate(self.violations[:5]):
                rep = dict(rep, property=self.prop, message=msg)
                if os.path.exists(os.environ.get("VERIF_WORDS", "")):
                    rep["words"] = open(os.environ["VERIF_WORDS"]).read()
                name = "%s-%s.json" % (self.prop, hashlib.sha256(json.dumps(rep, sort_keys=True).encode()).hexdigest()[:10])
                path = os.path.join(OUT, name)
                with open(path, "w") as f:
                    json.dump(rep, f, indent=1, ensure_ascii=False)
                note("  " + msg[:1500])
                note("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if self.cov["evaluations"] == 0 or self.cov["distinct_nontrivial"] == 0:
            note("nothing was observed: inconclusive")
            return 2
        note("%s: held on %d evaluations (%d distinct, non-trivial), %.1f s" % (
            self.prop, self.cov["evaluations"], self.cov["distinct_nontrivial"], time.time() - self.t0))
        return 0
