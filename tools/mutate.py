#!/usr/bin/env python3
"""mutate.py {lang|alg|grammar} SEED COUNT [LOG]: small random changes to the sources, one at a time; prints those that no workload notices.
An audit of the workloads, to be run where /repo is a scratch copy (a private mount namespace); no check uses it."""
import json, os, random, re, subprocess, sys, tempfile, time
sys.path.insert(0, "/verif")
kind, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
rnd = random.Random(seed)
A, B, P = "/repo/projects/sm-algorithm/src/", "/repo/projects/sm-ast/src/", "/repo/projects/sm-parser/src/"
FILES = {
    "alg": [A + f for f in ("basic/mod.rs", "gamma/factorial.rs", "linear/fibonacci.rs", "prime/prime_count.rs", "prime/prime_sum.rs", "error.rs")],
    "lang": [B + f for f in ("parser/ops.rs", "parser/mod.rs", "parser/traits.rs", "parser/parse.rs", "traits/wolfram/mod.rs", "traits/tex/utils.rs", "traits/tex/mod.rs",
             "evaluate/forward.rs", "evaluate/traits.rs", "error/mod.rs", "error/traits.rs", "ast/traits.rs", "internal/list_like.rs", "internal/elementary.rs")]
            + ["/repo/projects/sm-playground/src/lib.rs"],
    "grammar": [P + "sm_parser.rs"],
}[kind]
GENERIC = [
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" % ", [" / "]), (r" / ", [" % "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.\"])(\d+)(?=[,;)\]. u])", [lambda m: str(int(m.group(1)) + 1), lambda m: str(max(0, int(m.group(1)) - 1))]),
    (r"\.rev\(\)", [""]), (r"\.is_empty\(\)", [".is_empty() == false"]), (r"-&", ["&"]), (r"\(-", ["("]), (r"!(?=[a-z(])(?<=[ (!])", [""]),
    (r"Assoc::Left", ["Assoc::Right"]), (r"Assoc::Right", ["Assoc::Left"]), (r"Rule::(\w+) \| ", [""]), (r"^( *)([a-z][\w.&*\[\]]*(?: [-+*]?= |\.)[^\n]*;)$", [r"\1"]),
    (r"inner_pairs\((\w+)\)", [r"\1.into_inner()"]), (r"=> continue", ["=> break"]), (r"\bfirst\(\)", ["last()"]), (r"\.next\(\)", [".last()"]),
    (r"\"([^\"\\{}\n]{1,24})\"", [lambda m: '"' + m.group(1) + 'x"', lambda m: '"' + m.group(1)[:-1] + '"']),
    (r"Err\((?:SMError::)?(Overflow|ComplexInfinity|Indeterminate|OverFlow|Unimplemented)\)", ["Err(X)"]),
    (r"start_pos", ["end_pos"]), (r"end_pos", ["start_pos"]), (r"\.chars\(\)", [".bytes().map(char::from)"]), (r"1\.\.=", ["1.."]), (r"\.\.=", [".."]),
    (r"\.abs\(\)", [""]), (r"\bmax\b", ["min"]), (r"saturating_sub", ["wrapping_sub"]), (r"\?;", [";"]), (r"\.clone\(\)", [""]), (r"position: (\w+)\.clone\(\)", ["position: Default::default()"]),
]
PEST = [
    (r"\.or_else\(\|state\| (?:self::\w+\(state\)|state\.match_string\(\"[^\"]*\"\)|state\.match_insensitive\(\"[^\"]*\"\))\)", [""]),
    (r"\.and_then\(\|state\| super::hidden::skip\(state\)\)", [""]), (r"\.and_then\(\|state\| self::\w+\(state\)\)", [""]),
    (r"\.and_then\(\|state\| state\.optional\(\|state\| self::\w+\(state\)\)\)", [""]),
    (r"state\.optional\(", ["state.repeat("]), (r"state\.repeat\(", ["state.optional("]), (r"lookahead\(false", ["lookahead(true"]),
    (r"match_insensitive", ["match_string"]), (r"match_string\(\"([a-z]+)\"", [r'match_insensitive("\1"']), (r"Atomicity::Atomic", ["Atomicity::CompoundAtomic", "Atomicity::NonAtomic"]),
    (r"Atomicity::CompoundAtomic", ["Atomicity::Atomic", "Atomicity::NonAtomic"]), (r"Atomicity::NonAtomic", ["Atomicity::CompoundAtomic"]),
    (r"match_string\(\"([^\"]*)\"\)", [lambda m: 'match_string("%sx")' % m.group(1)]), (r"self::(Comma|Colon|Semicolon|Dot|SYMBOL|Symbol|Integer|Positive|expr|statement|block)\(state\)",
      [lambda m: "self::%s(state)" % rnd.choice(["Comma", "Colon", "Semicolon", "Dot", "SYMBOL", "Symbol", "Integer", "Positive", "expr", "statement", "block"])]),
    (r"state\.match_range\('(.)'\.\.'(.)'\)", [r"state.match_range('\1'..'\1')"]), (r"state\.stack_push\((.*?)\(state\)\)\)", [r"state.repeat(|state| self::Quotation(state))"]),
]
ops = PEST if kind == "grammar" else GENERIC
sites = []
for f in FILES:
    t = open(f).read()
    dead = [(m.start(), m.end()) for m in re.finditer(r"(?m)^\s*//[^\n]*$|#\[test\]\nfn [^{]*\{.*?\n\}\n|/\*.*?\*/", t, re.S | re.M)] if kind != "grammar" else []
    for rx, subs in ops:
        for m in re.finditer(rx, t, re.M):
            if any(a <= m.start() < b for a, b in dead):
                continue
            # the tables of published values are one constant after another: few of them are enough
            if "table.insert" in t[t.rfind("\n", 0, m.start()) + 1:m.start()] and rnd.random() > 0.03:
                continue
            for s in subs:
                new = m.expand(s) if isinstance(s, str) else s(m)
                if new != m.group(0):
                    sites.append((f, m.start(), m.end(), new))
rnd.shuffle(sites)
print(len(sites), "places", flush=True)
from vlib import core, lang, alg
def harness():
    H = {"alg": alg.H, "lang": lang.L, "grammar": lang.G}[kind]
    H._hash = None
    return H
limit = {}
def noticed():
    H = harness()
    try:
        b = H.build({"alg": "fast", "lang": "chk", "grammar": "release"}[kind])
    except Exception:
        return "does not compile"
    sc = tempfile.mkdtemp()
    env = dict(os.environ, LANG_SCRATCH=sc)
    try:
        if kind == "grammar":
            jobs = [("C24", [b, "check", "--seed", "1", "--per", "60000", "--out", sc + "/o"])]
        elif kind == "alg":
            jobs = [(p, [b, "check", p, "--tier", "quick", "--seed", "1", "--threads", "8", "--out", sc + "/o"]) for p in ["C%02d" % k for k in range(1, 11)]]
        else:
            jobs = [(p, [b, "check", p, "--seed", "1", "--cases", str(n), "--out", sc + "/o"]) for p, n in
                    [("C14", 15000), ("C16", 15000), ("C18", 15000), ("C19", 15000), ("C17", 15000), ("C23", 15000), ("C13", 15000), ("C27", 20000), ("C26", 20000), ("C28", 15000), ("C29", 15000),
                     ("C15", 15000), ("C21", 800), ("C22", 2500), ("C20", 20000), ("C30", 3000), ("C25", 2000), ("C31", 20000), ("C32", 10000), ("C33", 30000), ("C34", 5000)]]
        for p, c in jobs:
            t1 = time.time()
            try:
                r = subprocess.run(c, env=env, capture_output=True, text=True, timeout=limit.get(p, 1800))
            except subprocess.TimeoutExpired:
                return p + " timeout"
            limit.setdefault(p, 60 + 3 * (time.time() - t1))
            if r.returncode != 0:
                return p + " rc %d" % r.returncode
            try:
                if json.load(open(sc + "/o"))["violations"]:
                    return p
            except (OSError, ValueError):
                return p + " no report"
        return None
    finally:
        subprocess.run(["find", sc, "-delete"])
first = noticed()
if first:
    print("the unchanged tree is noticed:", first); sys.exit(1)
n = killed = 0
for f, a, b, s in sites:
    if n >= count:
        break
    t = open(f).read()
    line = t.count("\n", 0, a) + 1
    open(f, "w").write(t[:a] + s + t[b:])
    t0 = time.time()
    try:
        r = noticed()
    finally:
        open(f, "w").write(t)
    if r == "does not compile":
        continue
    n += 1
    killed += bool(r)
    ctx = t[max(0, t.rfind("\n", 0, a) + 1):t.find("\n", b)].strip() if kind != "grammar" else t[max(0, a - 60):a] + "«" + t[a:b] + "»" + t[b:b + 60]
    print("%s %s:%d %r -> %r %s (%.0fs)%s" % ("ok  " if r else "MISS", f[len("/repo/projects/"):], line, t[a:b][:80], s[:80], r or "", time.time() - t0, "" if r else "\n       " + ctx[:200]), flush=True)
print(n, "mutants,", killed, "noticed")
