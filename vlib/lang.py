"""C13-C34: the language (parser, tree, evaluator, translations, playground)."""
import json
import os
import re
import shutil
import tempfile

from .alg import san_run, sanitizer_report
from .core import *

LOCAL = ["sm_algorithm", "sm_parser", "sm_ast", "sm_playground", "wolfram_wxf", "bigdecimal", "text-utils", "text_utils"]
L = Harness("lang", os.path.join(VERIF, "harness", "lang"), LOCAL + ["lang"],
            [os.path.join(VERIF, "harness", "lang"), os.path.join(VERIF, "harness", "shared"), os.path.join(VERIF, "overlay")])
G = Harness("grammar", os.path.join(VERIF, "harness", "grammar"), LOCAL + ["grammar"],
            [os.path.join(VERIF, "harness", "grammar"), os.path.join(VERIF, "harness", "shared"), os.path.join(VERIF, "overlay")])

# quick cases, thorough cases, what counts as a non-trivial case
PLAN = {
    "C13": (600_000, 12_000_000, "distinct literal texts of more than one digit or character"),
    "C14": (600_000, 12_000_000, "distinct texts with at least one operator, call, index or list"),
    "C15": (150_000, 3_000_000, "distinct texts of more than one token, each laid out several ways"),
    "C16": (400_000, 6_000_000, "distinct trees with at least one operator or call"),
    "C17": (250_000, 4_000_000, "distinct expressions that are not atoms"),
    "C18": (400_000, 8_000_000, "distinct trees that are not atoms"),
    "C19": (400_000, 8_000_000, "distinct trees that are not atoms"),
    "C20": (200_000, 4_000_000, "distinct texts"),
    "C21": (15_000, 300_000, "distinct histories of more than three steps"),
    "C22": (12_000, 200_000, "distinct situations in which the source text is not trivial or a fault is injected"),
    "C23": (600_000, 12_000_000, "distinct texts with at least one positioned construct"),
    "C25": (150_000, 3_000_000, "distinct texts nested more than eight deep"),
    "C26": (300_000, 6_000_000, "distinct pairs of different spellings"),
    "C27": (600_000, 12_000_000, "distinct texts or calls that must fail"),
    "C28": (600_000, 10_000_000, "distinct texts with a slot or history reference"),
    "C29": (600_000, 10_000_000, "distinct expressions that are not atoms"),
    "C30": (40_000, 800_000, "distinct families of texts, each observed several times"),
    "C31": (250_000, 6_000_000, "distinct trees that are not atoms"),
    "C32": (250_000, 5_000_000, "distinct calls with options that are also written in another order"),
    "C33": (800_000, 16_000_000, "distinct filled texts with at least one position"),
    "C34": (200_000, 4_000_000, "distinct families of more than two trees"),
}
SAMPLE_ASAN = {"C13": 30_000, "C16": 20_000, "C18": 20_000, "C20": 15_000, "C22": 1_500}
ENV = {"LANG_SCRATCH": ""}


def env():
    e = dict(os.environ)
    e.update(ENV)
    return e


def go(binary, args, timeout):
    from .alg import SAN_ENV
    e = env()
    e.update(SAN_ENV)
    return run([binary] + args, timeout=timeout, env=e)


def one(binary, prop, seed, index, timeout=400):
    return go(binary, ["one", prop, "--seed", str(seed), str(index)], timeout)


def find_crash(binary, args, prop, seed, rep, flavour, p):
    """the workload died: find the case it died in, by writing every input down before it is used"""
    with tempfile.TemporaryDirectory() as d:
        q = go(binary, args + ["--trace", os.path.join(d, "t")], 850)
        last = {}
        for f in os.listdir(d):
            s = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
            if "\n" in s:
                i, text = s.split("\n", 1)
                if i.isdigit():
                    last[int(i)] = text
    for i, text in sorted(last.items(), key=lambda x: len(x[1])):
        c = one(binary, prop, seed, i)
        if c.crashed or c.rc == 86:
            r = sanitizer_report(c.err) or sanitizer_report(q.err)
            rep.violation("%s build: the process died (status %s%s) on %s" % (flavour, c.rc, ", " + r if r else "", text[:600]),
                          {"kind": "lang-one", "flavour": flavour, "seed": seed, "index": i})
            return
    raise Inconclusive("%s build: the workload ended abnormally (status %s) and no single case reproduces it: %s" % (flavour, p.rc, p.err[-800:]))


def merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v
    return a


def workload(rep, prop, binary, flavour, seed, cases, timeout, key):
    out = os.path.join(OUT, "%s-%s.report" % (prop, key))
    if os.path.exists(out):
        os.remove(out)
    args = ["check", prop, "--seed", str(seed), "--cases", str(cases), "--threads", str(NCPU), "--cpu-limit", "20" if prop == "C25" else "120", "--out", out]
    p = go(binary, args, timeout)
    if p.timed_out:
        raise Inconclusive("workload did not finish in time")
    if p.rc != 0 or not os.path.exists(out):
        find_crash(binary, args, prop, seed, rep, flavour, p)
        return
    r = json.load(open(out))
    os.remove(out)
    rep.add("evaluations", r["evaluations"])
    rep.cov["distinct_nontrivial"] += r["distinct_nontrivial"]
    merge(rep.cov.setdefault("outcomes", {}), r["outcomes"])
    merge(rep.cov.setdefault("constructs", {}), r["constructs"])
    rep.cov["samples"] += r["samples"][:6]
    rep.cov.setdefault("passes", []).append({"build": flavour, "seed": seed, "cases": r["cases"], "evaluations": r["evaluations"],
                                             "distinct_nontrivial": r["distinct_nontrivial"], "wall_s": round(p.wall, 1)})
    for v in r["violations"]:
        rep.violation("%s build: %s: %s" % (flavour, v["input"][:700], v["message"]),
                      {"kind": "lang-one", "flavour": flavour, "seed": seed, "index": v["index"]})


def known_part(rep, prop, binary):
    """findings that the known-findings file lists, each identified by its inputs"""
    listed = dict(known(prop))
    p = go(binary, ["known", prop], 120)
    if p.rc != 0:
        raise Inconclusive("the known findings could not be looked at: %s" % p.err[-500:])
    for line in p.out.splitlines():
        sig, text = line.split("\t", 1)
        if sig in listed:
            rep.finding(sig, text)
        else:
            rep.violation(text, {"kind": "lang-known", "signature": sig})


def tree_check(prop):
    rep = Report(prop)
    quick, deep, rule = PLAN[prop]
    rep.cov["rule"] = rule
    thorough = rep.tier == "thorough"
    scratch = tempfile.mkdtemp(prefix="lang-")
    ENV["LANG_SCRATCH"] = scratch
    try:
        want = ["chk"] + (["release", "asan"] if thorough else (["asan"] if prop == "C20" else []))
        if prop == "C25":
            want = ["chk"] + (["release"] if thorough else [])
        bins = L.build_all(want)
        known_part(rep, prop, bins["chk"])
        # every pass draws its cases from a seed of its own
        plan = [("chk", rep.seed, quick)]
        if thorough:
            plan = [("chk", rep.seed, deep // 2), ("release", rep.seed + 1_000_003, deep // 2)]
        if "asan" in bins:
            plan.append(("asan", rep.seed + 2_000_003, SAMPLE_ASAN.get(prop, 10_000 if prop != "C21" else 600) * (4 if thorough else 1)))
        for k, (fl, seed, n) in enumerate(plan):
            workload(rep, prop, bins[fl], fl, seed, n, 5000 if thorough else 700, "%s-%d" % (fl, k))
            if rep.violations:
                break
        if prop == "C21" and not rep.violations:
            playground(rep, bins["chk"], thorough)
        if prop == "C20" and not rep.violations:
            interpreted(rep, thorough)
        if prop == "C30" and not rep.violations:
            at_once(rep, bins["chk"], thorough)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rep.finish()


def playground(rep, chk, thorough):
    """the shared playground session from many threads at once, natively and under ThreadSanitizer"""
    tsan = L.build("tsan")
    seen = []
    for fl, binary, thr, steps, reps in (("chk", chk, 2 * NCPU, 1500, 30 if thorough else 6), ("tsan", tsan, NCPU, 250, 12 if thorough else 3)):
        for k in range(reps):
            seed = rep.seed * 1009 + k
            p = go(binary, ["threads", "--seed", str(seed), "--threads", str(thr), "--steps", str(steps)], 800)
            replay_as = {"kind": "lang-threads", "flavour": fl, "seed": seed, "threads": thr, "steps": steps}
            r = sanitizer_report(p.err)
            if r:
                rep.violation("%s: %s\n%s" % (fl, r, p.err[:2500]), replay_as)
                return
            if p.timed_out:
                raise Inconclusive("the playground workload did not finish")
            bad = [l for l in p.out.splitlines() if l.startswith("BAD")]
            if bad or p.crashed:
                rep.violation("%s: playground from %d threads: %s" % (fl, thr, bad[0][:1500] if bad else "the process died (%s)" % p.rc), replay_as)
                return
            if p.rc != 0:
                raise Inconclusive("the playground workload ended with status %s: %s" % (p.rc, p.err[-500:]))
            d = json.loads(p.out.splitlines()[-1])
            seen.append(dict(d, build=fl))
            rep.add("evaluations", d["calls"])
    rep.cov["playground_threads"] = {
        "runs": len(seen), "calls": sum(d["calls"] for d in seen), "overlapping_calls": sum(d["overlapping_calls"] for d in seen),
        "renderings_with_several_candidates": sum(d["renderings_with_several_candidates"] for d in seen),
        "builds": sorted(set(d["build"] for d in seen))}


def at_once(rep, chk, thorough):
    """many threads parsing, rendering and evaluating the same texts at once, natively and under ThreadSanitizer"""
    tsan = L.build("tsan")
    seen = []
    for fl, binary, thr, steps, reps in (("chk", chk, 2 * NCPU, 3000, 200 if thorough else 20), ("tsan", tsan, NCPU, 400, 40 if thorough else 6)):
        for k in range(reps):
            seed = rep.seed * 2003 + k
            p = go(binary, ["parallel", "--seed", str(seed), "--threads", str(thr), "--steps", str(steps)], 800)
            replay_as = {"kind": "lang-parallel", "flavour": fl, "seed": seed, "threads": thr, "steps": steps}
            r = sanitizer_report(p.err)
            if r:
                rep.violation("%s: %s\n%s" % (fl, r, p.err[:2500]), replay_as)
                return
            if p.timed_out:
                raise Inconclusive("the parallel workload did not finish")
            bad = [l for l in p.out.splitlines() if l.startswith("BAD")]
            if bad or p.crashed:
                rep.violation("%s: %d threads: %s" % (fl, thr, bad[0][:1500] if bad else "the process died (%s)" % p.rc), replay_as)
                return
            if p.rc != 0:
                raise Inconclusive("the parallel workload ended with status %s: %s" % (p.rc, p.err[-500:]))
            d = json.loads(p.out.splitlines()[-1])
            seen.append(d)
            rep.add("evaluations", d["calls"])
    rep.cov["parallel_runs"] = {"runs": len(seen), "calls": sum(d["calls"] for d in seen), "texts": sum(d["texts"] for d in seen), "builds": ["chk", "tsan"]}


def interpreted(rep, thorough):
    """a few inputs under the undefined-behaviour interpreter"""
    L.miri_prepare()
    per, jobs = (3, 4 * NCPU) if thorough else (2, NCPU)
    seeds = [rep.seed * 5003 + k for k in range(jobs)]

    def job(s):
        out = os.path.join(OUT, "C20-miri-%d.report" % s)
        return lambda: (s, out, L.miri(["check", "C20", "--seed", str(s), "--cases", str(per), "--threads", "1", "--cpu-limit", "100000", "--out", out],
                                       flags="-Zmiri-ignore-leaks", timeout=800 if thorough else 240))
    n = 0
    for s, out, p in parallel([job(s) for s in seeds]):
        r = sanitizer_report(p.err)
        if r:
            rep.violation("Miri: %s\n%s" % (r, p.err[:2000]), {"kind": "lang-miri", "seed": s, "cases": per})
            continue
        if p.timed_out:
            continue
        if p.rc != 0 or not os.path.exists(out):
            raise Inconclusive("Miri ended with status %s: %s" % (p.rc, p.err[-800:]))
        d = json.load(open(out))
        os.remove(out)
        n += d["cases"]
        for v in d["violations"]:
            rep.violation("Miri: %s: %s" % (v["input"][:500], v["message"]), {"kind": "lang-one", "flavour": "chk", "seed": s, "index": v["index"]})
    rep.cov["inputs_interpreted_by_miri"] = n


def c24():
    rep = Report("C24")
    thorough = rep.tier == "thorough"
    rep.cov["rule"] = ("texts generated from the published grammar for each of its rules, mutated, spliced and random; each given to both recognisers with "
                       "that rule as entry point; non-trivial: distinct accepted texts of more than two characters")
    b = G.build("release")
    for k in range(4 if thorough else 1):
        seed = rep.seed + 7_000_003 * k
        out = os.path.join(OUT, "C24-%d.report" % k)
        p = run([b, "check", "--seed", str(seed), "--per", "300000" if thorough else "40000", "--out", out], timeout=3000 if thorough else 700)
        if p.timed_out:
            raise Inconclusive("workload did not finish in time")
        if p.rc not in (0, 1) or not os.path.exists(out):
            raise Inconclusive("the comparison ended with status %s: %s" % (p.rc, p.err[-800:]))
        r = json.load(open(out))
        os.remove(out)
        rep.add("evaluations", r["evaluations"])
        rep.cov["distinct_nontrivial"] += r["distinct_nontrivial"]
        rep.cov["samples"] += r["samples"][:12]
        merge(rep.cov.setdefault("outcomes", {}), r["outcomes"])
        rep.cov["entry_points"] = r["entry_points"]
        rep.cov["rules_in_accepted_texts"] = len(r["rules_seen"])
        rep.cov["one_sided"] = r["one_sided"]
        for v in r["violations"]:
            rep.violation("%s: %s" % (v["case"][:400], v["message"]), {"kind": "grammar-one", "case": v["case"]})
        if rep.violations:
            break
    return rep.finish()


def replay(r):
    scratch = tempfile.mkdtemp(prefix="lang-")
    ENV["LANG_SCRATCH"] = scratch
    try:
        k = r["kind"]
        if k == "lang-one":
            p = one(L.build(r["flavour"]), r["property"], r["seed"], r["index"])
            note(p.out + p.err[-3000:])
            return 1 if p.rc != 0 or "\nBAD" in p.out else 0
        if k == "lang-known":
            p = go(L.build("chk"), ["known", r["property"]], 120)
            note(p.out)
            return 1 if any(l.startswith(r["signature"] + "\t") for l in p.out.splitlines()) else 0
        if k in ("lang-threads", "lang-parallel"):
            p = go(L.build(r["flavour"]), [k[5:], "--seed", str(r["seed"]), "--threads", str(r["threads"]), "--steps", str(r["steps"])], 900)
            note(p.out + p.err[:3000])
            return 1 if p.rc != 0 else 0
        if k == "lang-miri":
            L.miri_prepare()
            p = L.miri(["check", "C20", "--seed", str(r["seed"]), "--cases", str(r["cases"]), "--threads", "1", "--cpu-limit", "100000",
                        "--out", os.path.join(scratch, "out")], flags="-Zmiri-ignore-leaks", timeout=900)
            note(p.out + p.err[:3000])
            return 1 if p.rc != 0 else 0
        if k == "grammar-one":
            p = run([G.build("release"), "one"] + r["case"].split(" "), timeout=300)
            note(p.out + p.err[-2000:])
            return 1 if p.rc != 0 else 0
        raise Inconclusive("unknown replay kind " + k)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


CHECKS = {p: (lambda p=p: tree_check(p)) for p in PLAN}
CHECKS["C24"] = c24


def setup():
    try:
        L.build_all(["chk", "asan"])
        L.build("tsan")
        L.miri_prepare()
        G.build("release")
    except Inconclusive as e:
        note("the language harness does not build: %s" % e)
