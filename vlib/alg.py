"""C01-C12: the arithmetic library."""
import json
import math
import os
import random
import re
import tempfile

from .core import *

H = Harness("alg", os.path.join(VERIF, "harness", "alg"), ["sm_algorithm", "alg"], [os.path.join(VERIF, "harness", "alg"), os.path.join(VERIF, "harness", "shared")])

RULES = {
    "C01": "base x exponent grid, 32-bit exponent boundary, multi-word bases, exponents beyond 2^32; non-trivial: |base| > 1 and exponent > 1",
    "C02": "full square of small pairs, word boundaries, common factors, Fibonacci pairs, up to 2000 bits; non-trivial: both |a|, |b| > 1 and different",
    "C03": "full square of small (a, m), word boundaries, shared factors, up to 2000 bits; non-trivial: |a| > 1 and |m| > 1",
    "C04": "full cube of small (a, b, m), solvable with gcd > 1, unsolvable, up to 700 bits; non-trivial: a != 0, |b| > 1, |m| > 1",
    "C05": "all small 1- and 2-congruence systems, random systems of 1-40 coprime moduli of either sign, mismatched and non-coprime ones; non-trivial: at least two moduli of magnitude > 1",
    "C06": "every n up to a bound, larger n around powers of two, negatives and naturals beyond the word; non-trivial: |n| > 2",
    "C07": "every n up to a bound of both signs, large n around powers of two, beyond the word; non-trivial: |n| > 2",
    "C08": "every n up to a bound, neighbours of primes, squares, products, powers of two and ten, up to 3*10^11; non-trivial: |n| > 2",
    "C09": "every n up to a bound, neighbours and multiples of powers of ten, random up to 120 bits; non-trivial: |n| > 2",
    "C10": "hostile operands (signs, word boundaries, up to 20000 bits) for every entry point; non-trivial as in C01-C09",
}


def judge_alone(binary, prop, case, timeout=400):
    return run([binary, "one", prop], stdin=case + "\n", timeout=timeout)


def find_crash(binary, args, prop, rep, flavour, how):
    """the workload died: find the call it died in, by writing every call down before it is made"""
    with tempfile.TemporaryDirectory() as d:
        tr = os.path.join(d, "trace")
        p = run([binary] + args + ["--trace", tr], timeout=800)
        cands = []
        for f in os.listdir(d):
            if f.startswith("trace."):
                ls = open(os.path.join(d, f)).read().splitlines()
                if ls:
                    cands.append(ls[-1])
    for c in cands:
        q = judge_alone(binary, prop, c)
        if q.crashed:
            rep.violation("%s build: the process died (status %s) in: %s\n%s" % (flavour, q.rc, c[:300], q.err[-600:]),
                          {"kind": "alg-one", "flavour": flavour, "case": c, "expect": "no crash"})
            return
    raise Inconclusive("%s build: the workload ended abnormally (%s) and no single call reproduces it: %s" % (flavour, how, p.err[-500:]))


def functional(prop):
    rep = Report(prop)
    bins = H.build_all(["fast", "chk"])
    rep.cov["rule"] = RULES[prop]
    rep.cov["builds"] = ["fast: optimised, no checks, counting allocator", "chk: optimised, overflow checks and debug assertions"]
    limit = "45" if prop == "C10" else "100"
    tier = rep.tier
    passes = [("fast", rep.seed), ("chk", rep.seed + 1_000_003)]
    if tier == "thorough":
        passes += [("fast", rep.seed + 2_000_003), ("fast", rep.seed + 3_000_017)]
    for i, (fl, seed) in enumerate(passes):
        # the first pass goes deep; the second repeats the shallow tier under run-time checks
        t = tier if (i == 0 or prop not in ("C08",)) else "quick"
        out = os.path.join(OUT, "%s-%s-%d.report" % (prop, fl, i))
        if os.path.exists(out):
            os.remove(out)
        args = ["check", prop, "--tier", t, "--seed", str(seed), "--threads", str(NCPU), "--out", out, "--cpu-limit", limit]
        p = run([bins[fl]] + args, timeout=850 if tier == "quick" else 7200)
        if p.timed_out:
            raise Inconclusive("workload did not finish in time")
        if p.rc != 0 or not os.path.exists(out):
            find_crash(bins[fl], args, prop, rep, fl, "status %s" % p.rc)
            break
        r = json.load(open(out))
        rep.add("evaluations", r["evaluations"])
        rep.cov["distinct_nontrivial"] = max(rep.cov["distinct_nontrivial"], r["distinct_nontrivial"])
        rep.cov["samples"] += r["samples"][:6]
        rep.cov["pass_%d_%s" % (i, fl)] = {k: r[k] for k in ("evaluations", "distinct_nontrivial", "ops", "outcomes", "largest_result_bits", "largest_call_bytes")}
        for v in r["violations"]:
            rep.violation("%s build: %s: %s" % (fl, v["case"][:400], v["message"]),
                          {"kind": "alg-one", "flavour": fl, "case": v["case"], "seed": seed, "tier": t})
        if rep.violations:
            break
    return rep.finish()


def sanitizer_report(err):
    m = re.search(r"(ERROR: AddressSanitizer[^\n]*|ERROR: LeakSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|error: Undefined Behavior[^\n]*|error: memory leaked[^\n]*|error: [^\n]*leak[^\n]*|error: [^\n]*(?:deadlock|data race)[^\n]*)", err, re.I)
    return m.group(1) if m else None


SAN_ENV = {
    "ASAN_OPTIONS": "halt_on_error=1:abort_on_error=0:exitcode=86:detect_leaks=1:allocator_may_return_null=1",
    "LSAN_OPTIONS": "exitcode=86",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=86:report_signal_unsafe=0",
}


def san_run(binary, args, stdin, timeout=600):
    e = dict(os.environ)
    e.update(SAN_ENV)
    return run([binary] + args, stdin=stdin, timeout=timeout, env=e)


def chunks(xs, n):
    k = max(1, (len(xs) + n - 1) // n)
    return [xs[i:i + k] for i in range(0, len(xs), k)]


def c11():
    """the same calls in every build, outcome for outcome; sanitizer and interpreter reports"""
    rep = Report("C11")
    rep.cov["rule"] = ("random sample of the C01-C10 workloads, each call run in every build, outcomes compared; "
                       "non-trivial: distinct calls that are not special cases (as in C01-C10)")
    thorough = rep.tier == "thorough"
    flavours = ["debug", "release", "chk", "fast", "asan"]
    bins = H.build_all(flavours)
    cases = run([bins["fast"], "mixed", "--seed", str(rep.seed), "--per", "4000" if thorough else "900", "--tier", "quick"]).out.splitlines()
    tiny = run([bins["fast"], "mixed", "--seed", str(rep.seed), "--per", "60" if thorough else "14", "--tier", "tiny"]).out.splitlines()
    # arguments around the widths of machine words, where the arithmetic of an optimised and of a checked build may part
    for k in (8, 15, 16):
        for d in (-1, 0, 1):
            n = (1 << k) + d
            cases += ["%s %d" % (f, n) for f in ("fact_u", "fib_fast", "fib_fold", "psum_u")] + ["%s %d" % (f, x) for f in ("fact_i", "fib_i", "psum_i", "pcount") for x in (n, -n)]
            cases += ["power %d 3" % n, "power -2 %d" % n, "inv 3 %d" % n, "inv -%d 7" % n, "div 2 3 %d" % n, "egcd %d 5" % n]
    for k in (31, 32, 63, 64):
        for d in (-1, 0, 1):
            n = (1 << k) + d
            cases += ["power %d 3" % n, "power -%d 2" % n, "power 1 %d" % n, "power 0 %d" % n, "power -1 %d" % n, "inv 3 %d" % n, "inv -%d 7" % n, "div 2 3 %d" % n, "egcd -%d 12" % n, "coprime %d 6" % n,
                      "fact_i -%d" % n, "psum_i -%d" % n, "pcount -%d" % n, "pcount %d" % n]
            if n >= 1 << 32:
                cases += ["power 2 %d" % n, "power -3 %d" % n]
    # directed calls whose intermediate values cross word boundaries on the way
    if thorough:
        cases += ["psum_u %d" % n for n in (1 << 24, 1 << 28, 1 << 32, (1 << 32) + 12345, 6074001000)]
    else:
        cases += ["psum_u %d" % n for n in (1 << 24, 99_999_989)]
    heavy = ["psum_u 4294967296", "psum_u 4294967311", "psum_i 5000000029", "psum_u 6074001001"]
    outs = {}
    jobs = []

    def job(fl, part, idx):
        def go():
            p = san_run(bins[fl], ["exec"], "\n".join(part) + "\n", timeout=800 if not thorough else 5000)
            outs[(fl, idx)] = (part, p)
        return go

    parts = chunks(cases, 4)
    for fl in flavours:
        for i, part in enumerate(parts):
            jobs.append(job(fl, part, i))
        if fl in ("release", "chk", "fast"):
            for i, c in enumerate(heavy):
                jobs.append(job(fl, [c], "h%d" % i))
    parallel(jobs)
    seen = set()
    for (fl, idx), (part, p) in sorted(outs.items(), key=lambda x: str(x[0])):
        lines = p.answers
        r = sanitizer_report(p.err)
        if p.timed_out:
            raise Inconclusive("%s build did not finish" % fl)
        if r or p.rc != 0 or len(lines) != len(part):
            case = part[len(lines)] if len(lines) < len(part) else "-"
            if not r and p.rc >= 0 and p.rc < 128:
                raise Inconclusive("%s build ended with status %s: %s" % (fl, p.rc, p.err[-500:]))
            rep.violation("%s build: %s while running: %s\n%s" % (fl, r or "died with status %s" % p.rc, case[:300], p.err[-1200:]),
                          {"kind": "alg-exec", "flavour": fl, "cases": part[:len(lines) + 1][-50:]})
            continue
        rep.add("evaluations", len(lines))
        ref = outs[("fast", idx)]
        if ref[1].rc != 0:
            continue
        for c, a, b in zip(part, lines, ref[1].answers):
            seen.add(c)
            if "PANIC" in a:
                rep.violation("%s build panics: %s: %s" % (fl, c[:300], a), {"kind": "alg-cross", "flavours": [fl, "fast"], "case": c})
            elif a != b:
                rep.violation("%s build answers %s, fast build %s: %s" % (fl, a[:200], b[:200], c[:300]),
                              {"kind": "alg-cross", "flavours": [fl, "fast"], "case": c})
    rep.cov["distinct_calls_compared"] = len(seen)
    rep.cov["builds"] = flavours
    # Miri
    n_miri = 0
    if not rep.violations:
        H.miri_prepare()
        want = run([bins["fast"], "exec"], stdin="\n".join(tiny) + "\n").answers
        pieces = chunks(list(range(len(tiny))), NCPU * (4 if thorough else 1))

        def mjob(ix):
            def go():
                return ix, H.miri(["exec"], stdin="\n".join(tiny[i] for i in ix) + "\n", timeout=700 if not thorough else 5000)
            return go
        for ix, p in parallel([mjob(x) for x in pieces]):
            got = p.answers
            r = sanitizer_report(p.err)
            if p.timed_out:
                raise Inconclusive("Miri did not finish in time")
            if p.rc != 0:
                at = tiny[ix[len(got)]] if len(got) < len(ix) else "-"
                if not r:
                    raise Inconclusive("Miri ended with status %s: %s" % (p.rc, p.err[-800:]))
                rep.violation("Miri: %s while running: %s\n%s" % (r, at, p.err[:1500]),
                              {"kind": "alg-miri", "cases": [tiny[i] for i in ix][:len(got) + 1]})
                continue
            for i, g in zip(ix, got):
                n_miri += 1
                seen.add(tiny[i])
                if g != want[i]:
                    rep.violation("Miri answers %s, native build %s: %s" % (g, want[i], tiny[i]),
                                  {"kind": "alg-miri", "cases": [tiny[i]]})
    rep.cov["calls_interpreted_by_miri"] = n_miri
    rep.add("evaluations", n_miri)
    rep.cov["distinct_nontrivial"] = len([c for c in seen if nontrivial_text(c)])
    rep.cov["samples"] = [{"case": c[:200], "observed_in_every_build": a[:200]} for c, a in
                          list(zip(parts[0], outs[("fast", 0)][1].answers))[5:400:60]]
    return rep.finish()


def nontrivial_text(c):
    w = c.split()
    return len(w) > 1 and any(x.strip("-") not in ("0", "1", "2", "") for x in w[1:])


def c12():
    rep = Report("C12")
    thorough = rep.tier == "thorough"
    rep.cov["rule"] = ("every call's answer in a fresh process is the reference; the same calls then run repeatedly, in shuffled orders and "
                       "from many threads at once, in native, ThreadSanitizer and Miri builds; non-trivial: distinct non-special calls")
    bins = H.build_all(["fast", "tsan"])
    fast = bins["fast"]
    cases = run([fast, "mixed", "--seed", str(rep.seed), "--per", "300" if thorough else "70", "--tier", "quick"]).out.splitlines()
    # neighbours: calls that a cache keyed on too little would confuse
    rnd = random.Random(rep.seed * 7 + 12)
    for _ in range(60 if thorough else 20):
        n = rnd.randrange(3, 3000)
        cases += ["fact_u %d" % n, "fact_i %d" % n, "fact_i -%d" % n, "fib_fast %d" % n, "fib_fold %d" % n, "fib_i %d" % n, "fib_i -%d" % n,
                  "psum_u %d" % n, "psum_i %d" % n, "pcount %d" % n, "power %d 5" % n, "power -%d 5" % n, "power 5 %d" % n,
                  "inv %d 1009" % n, "inv 1009 %d" % n, "div 6 %d 35" % n, "div %d 6 35" % n, "egcd %d 84" % n, "egcd 84 %d" % n]
    # families: the same operands with signs changed, operands swapped, one of them changed a little
    families = []
    ops = ("inv A M", "div D A M", "div A D M", "egcd A M", "coprime A M", "inv A M", "power S E", "fact_i F", "fib_i F", "fib_fast F", "fact_u F", "fib_fold F", "psum_i G", "psum_u G", "pcount T", "crt")

    def vary(v, k):
        if k in "FEG":
            return max(2, v + rnd.choice((-1, 1, 2, 256)))
        return rnd.choice((-v, -v, v + 1, v + (1 << 32), v + (1 << 64), v * 2, v ^ (1 << 64)))
    for j in range(160 if thorough else 96):
        b = rnd.choice((4, 8, 31, 33, 64, 80, 100, 200))
        op = ops[j % len(ops)]
        a, m, d = rnd.getrandbits(b) + 2, rnd.getrandbits(b) + 2, rnd.getrandbits(b // 2) + 2
        while b > 4 and math.gcd(a * d, m) > 1:
            a, d = a + 1, d + rnd.randrange(2)
        fam = []
        if op == "crt":
            n = rnd.randrange(2, 6)
            mods = rnd.sample((3, 4, 5, 7, 11, 13, 17, 19, 23, 10007, (1 << 61) - 1), n)
            rem = [rnd.randrange(x) for x in mods]
            for _ in range(10):
                u, w = list(rem), list(mods)
                i = rnd.randrange(n)
                k = rnd.randrange(5)
                if k == 0:
                    u[i] += w[i]
                elif k == 1:
                    u[i] = -u[i]
                elif k == 2:
                    w[i] = -w[i]
                elif k == 3:
                    u, w = u[::-1], w[::-1]
                else:
                    u, w = u[:-1] or u, w[:-1] or w
                fam.append("crt %s %s" % (",".join(map(str, u)), ",".join(map(str, w))))
        else:
            base = {"A": a, "M": m, "D": d, "S": a % 100000 + 2, "E": rnd.randrange(2, 300), "F": rnd.randrange(10, 2500), "G": rnd.randrange(10, 200000), "T": 10 ** rnd.randrange(0, 28)}
            name, ps = op.split()[0], op.split()[1:]
            fam.append(" ".join([name] + [str(base[k]) for k in ps]))
            for i in range(9):
                v = dict(base)
                # mostly a single argument changes
                for k in ([ps[i % len(ps)]] if i < 6 else rnd.sample(ps, rnd.randrange(1, len(ps) + 1))):
                    v[k] = vary(v[k], k)
                if name.endswith("_i") and rnd.random() < 0.4:
                    v[ps[0]] = -v[ps[0]]
                if v["M"] == 0:
                    continue
                if op == "inv A M" and i == 8:
                    v["A"], v["M"] = v["M"], v["A"] or 1
                fam.append(" ".join([name] + [str(v[k]) for k in ps]))
            # arguments that become the same once cut to a machine word, and ones of the other sign
            if name in ("fact_i", "fib_i", "psum_i", "pcount"):
                v = base[ps[0]]
                fam += ["%s %d" % (name, x) for x in (v + (1 << 64), v - (1 << 64), v + (1 << 128), -v)]
            if name == "power":
                fam += ["power %d %d" % (base["S"], base["E"] + (1 << k)) for k in (32, 64)] + ["power 1 %d" % base["E"], "power -1 %d" % base["E"]]
        fam = list(dict.fromkeys(fam))
        families.append(fam)
        cases += fam
    n = rnd.randrange(5, 4000)
    families.append(["psum_u %d" % n, "psum_i %d" % n, "psum_u %d" % (n + (1 << 32)), "psum_i %d" % (n + (1 << 32)), "psum_i %d" % (n + (1 << 64))])
    cases += families[-1]
    cases = list(dict.fromkeys(cases))
    rnd.shuffle(cases)
    # reference: one process per call
    def alone(c):
        return lambda: run([fast, "exec"], stdin=c + "\n", timeout=300)
    ref = []
    for c, p in zip(cases, parallel([alone(c) for c in cases])):
        if p.rc != 0 or not p.answers:
            raise Inconclusive("a single call ended with status %s: %s" % (p.rc, c[:200]))
        ref.append(p.answers[0])
    rep.cov["calls_in_a_fresh_process"] = len(cases)

    # histories: one process, many calls, several orders
    orders = 24 if thorough else 8
    def history(k):
        def go():
            r = random.Random(rep.seed * 1000 + k)
            ix = list(range(len(cases)))
            r.shuffle(ix)
            if k % 3 == 1:
                ix = ix + ix[::-1]
            if k % 3 == 2:
                ix = [i for i in ix for _ in (0, 1)]
            # the members of a family right after one another
            at = dict((c, i) for i, c in enumerate(cases))
            for fam in r.sample(families, len(families)):
                for _ in range(3):
                    ix += [at[c] for c in r.sample(fam, len(fam))]
            return ix, run([fast, "exec"], stdin="\n".join(cases[i] for i in ix) + "\n", timeout=600)
        return go
    n_hist = 0
    for ix, p in parallel([history(k) for k in range(orders)]):
        got = p.answers
        if p.timed_out:
            raise Inconclusive("a history did not finish")
        if p.rc != 0:
            if p.crashed:
                rep.violation("a history of calls killed the process (status %s)" % p.rc, {"kind": "alg-history", "cases": [cases[i] for i in ix[:len(got) + 1]]})
                continue
            raise Inconclusive("history ended with status %s" % p.rc)
        for pos, (i, g) in enumerate(zip(ix, got)):
            n_hist += 1
            if g != ref[i]:
                rep.violation("after %d earlier calls, %s answers %s; in a fresh process %s" % (pos, cases[i][:200], g[:200], ref[i][:200]),
                              {"kind": "alg-history", "cases": [cases[j] for j in ix[:pos + 1]], "expected_last": ref[i]})
                break
    rep.cov["calls_in_histories"] = n_hist
    rep.cov["histories"] = orders
    slow = set(c for c in families[-1] if 1 << 32 <= int(c.split()[1]) < 1 << 33)
    text = "\n".join("%s\t%s" % (c, r) for c, r in zip(cases, ref) if c not in slow) + "\n"

    stress = []
    # native threads, twice oversubscribed; and ThreadSanitizer
    for fl, thr, rounds, reps in (("fast", 2 * NCPU, 12, 6 if thorough else 2), ("tsan", NCPU, 3, 4 if thorough else 1)):
        for k in range(reps):
            p = san_run(bins[fl], ["conc", "--threads", str(thr), "--rounds", str(rounds), "--seed", str(rep.seed * 31 + k), "--stall", "700"], text, timeout=800)
            r = sanitizer_report(p.err)
            if r:
                rep.violation("%s: %s\n%s" % (fl, r, p.err[:2500]), {"kind": "alg-conc", "flavour": fl, "threads": thr, "rounds": rounds, "seed": rep.seed * 31 + k, "input": text})
                break
            if p.timed_out or p.rc == 3:
                raise Inconclusive("%s stress did not finish" % fl)
            if p.crashed:
                rep.violation("%s: concurrent calls killed the process (status %s): %s" % (fl, p.rc, p.err[-600:]),
                              {"kind": "alg-conc", "flavour": fl, "threads": thr, "rounds": rounds, "seed": rep.seed * 31 + k, "input": text})
                break
            if p.rc != 0:
                raise Inconclusive("%s stress ended with status %s: %s" % (fl, p.rc, p.err[-400:]))
            d = json.loads(p.out.splitlines()[-1])
            stress.append(dict((k2, v) for k2, v in d.items() if k2 != "violations") | {"build": fl})
            for v in d["violations"]:
                rep.violation("%s, %d threads: %s: %s" % (fl, thr, v["case"][:300], v["message"]),
                              {"kind": "alg-conc", "flavour": fl, "threads": thr, "rounds": rounds, "seed": rep.seed * 31 + k, "input": text})
            if d["violations"]:
                break
    rep.cov["stress"] = stress
    n_miri = 0
    if not rep.violations:
        H.miri_prepare()
        small = [c for c in run([fast, "mixed", "--seed", str(rep.seed + 5), "--per", "2" if thorough else "1", "--tier", "tiny"]).out.splitlines() if len(c) < 120][:28 if thorough else 14]
        small += ["fact_i 6", "fib_fast 9", "fib_i -8", "fib_fold 7", "psum_u 30", "psum_i 20", "pcount 100", "power -3 5"]
        want = run([fast, "exec"], stdin="\n".join(small) + "\n").answers
        mtext = "\n".join("%s\t%s" % x for x in zip(small, want)) + "\n"
        seeds = 48 if thorough else NCPU

        def mjob(k):
            return lambda: (k, H.miri(["conc", "--threads", "3", "--rounds", "2" if thorough else "1", "--seed", str(k)], stdin=mtext,
                                      flags="-Zmiri-seed=%d -Zmiri-preemption-rate=0.05" % k, timeout=700))
        for k, p in parallel([mjob(rep.seed * 100 + k) for k in range(seeds)]):
            r = sanitizer_report(p.err)
            if p.timed_out:
                raise Inconclusive("Miri did not finish in time")
            if p.rc != 0:
                if not r:
                    raise Inconclusive("Miri ended with status %s: %s" % (p.rc, p.err[-800:]))
                rep.violation("Miri (schedule seed %d): %s\n%s" % (k, r, p.err[:2000]), {"kind": "alg-miri-conc", "input": mtext, "seed": k})
                break
            d = json.loads(p.out.splitlines()[-1])
            n_miri += d["calls"]
            for v in d["violations"]:
                rep.violation("Miri (schedule seed %d): %s: %s" % (k, v["case"], v["message"]), {"kind": "alg-miri-conc", "input": mtext, "seed": k})
        rep.cov["miri_schedules"] = seeds
    rep.cov["calls_interpreted_by_miri"] = n_miri
    rep.cov["evaluations"] = len(cases) + n_hist + sum(s["calls"] for s in stress) + n_miri
    rep.cov["distinct_nontrivial"] = len(set(c for c in cases if nontrivial_text(c)))
    rep.cov["samples"] = [{"case": c[:200], "fresh_process": r[:200]} for c, r in list(zip(cases, ref))[:300:40]]
    return rep.finish()


def replay(r):
    k = r["kind"]
    if k == "alg-one":
        b = H.build(r["flavour"])
        p = judge_alone(b, r["property"], r["case"])
        note(p.out + p.err[-2000:])
        return 1 if p.rc != 0 else 0
    if k in ("alg-exec", "alg-history"):
        b = H.build(r.get("flavour", "fast"))
        p = san_run(b, ["exec"], "\n".join(r["cases"]) + "\n")
        note("\n".join(p.out.splitlines()[-3:]) + "\n" + p.err[-3000:])
        if p.rc != 0:
            return 1
        return 1 if "expected_last" in r and p.answers[-1] != r["expected_last"] else 0
    if k == "alg-cross":
        bs = H.build_all(r["flavours"])
        o = {f: run([b, "exec"], stdin=r["case"] + "\n").out for f, b in bs.items()}
        note(json.dumps(o))
        return 1 if len(set(o.values())) > 1 or any("PANIC" in x for x in o.values()) else 0
    if k == "alg-conc":
        b = H.build(r["flavour"])
        p = san_run(b, ["conc", "--threads", str(r["threads"]), "--rounds", str(r["rounds"]), "--seed", str(r["seed"])], r["input"], timeout=900)
        note(p.out + p.err[:3000])
        return 1 if p.rc != 0 or '"violations":[]' not in p.out else 0
    if k == "alg-miri":
        H.miri_prepare()
        p = H.miri(["exec"], stdin="\n".join(r["cases"]) + "\n")
        note(p.out + p.err[:3000])
        return 1 if p.rc else 0
    if k == "alg-miri-conc":
        H.miri_prepare()
        p = H.miri(["conc", "--threads", "3", "--rounds", "2", "--seed", str(r["seed"])], stdin=r["input"],
                   flags="-Zmiri-seed=%d -Zmiri-preemption-rate=0.05" % r["seed"])
        note(p.out + p.err[:3000])
        return 1 if p.rc or '"violations":[]' not in p.out else 0
    raise Inconclusive("unknown replay kind " + k)


CHECKS = {p: (lambda p=p: functional(p)) for p in RULES}
CHECKS["C11"] = c11
CHECKS["C12"] = c12


def setup():
    H.build_all(["fast", "chk", "debug", "release", "asan"])
    H.build("tsan")
    H.miri_prepare()
