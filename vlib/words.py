"""Steering: the literals of the source under test, as a dictionary for the workload generators.

A special case hangs on some constant: a name, a character, a size. The generators draw names, numbers, sizes and fragments
from the literals that the current source contains, and prefer those that are not in words_baseline.json (the literals of the
tree the machinery was written against). This only chooses inputs: what the code does with them is judged by the oracles."""
import json
import os
import re

from .core import OUT, REPO, VERIF

BASELINE = os.path.join(VERIF, "vlib", "words_baseline.json")
KEYWORDS = set("""std as if then else otherwise for in return yield break pass using class trait let def type extends with true false null
import from do while match inf""".split())
STR = re.compile(r'b?r#*"(.*?)"#*|b?"((?:[^"\\]|\\.)*)"', re.S)
CHAR = re.compile(r"'(\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\\n])'")
SHIFT = re.compile(r"\b1(?:_?[ui](?:\d+|size))?\s*<<\s*(\d+)")
NUM = re.compile(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:_?[ui](?:8|16|32|64|128|size))?(?![\w.]*\w)")
POW = re.compile(r"\b(\d+)(?:_?[ui](?:\d+|size))?\s*\.pow\(\s*(\d+)")
FN = re.compile(r"\bfn\s+([a-z_][a-z0-9_]*)")


def unescape(s):
    s = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)) if int(m.group(1), 16) < 0x110000 else "", s)
    s = re.sub(r"\\x([0-9a-fA-F]{2})", lambda m: chr(int(m.group(1), 16)), s)
    for a, b in (("\\n", "\n"), ("\\t", "\t"), ("\\r", "\r"), ("\\0", "\0"), ('\\"', '"'), ("\\'", "'"), ("\\\\", "\\")):
        s = s.replace(a, b)
    return s


def scan():
    words, nums, strs = set(), set(), set()
    for d, subs, fs in os.walk(os.path.join(REPO, "projects")):
        subs[:] = [s for s in subs if s not in ("target", ".git", "node_modules", "tests", "benches", "examples")]
        for f in fs:
            if not f.endswith((".rs", ".pest")):
                continue
            t = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
            t = re.sub(r"^\s*//.*$", "", t, flags=re.M)
            for m in STR.finditer(t):
                s = unescape(m.group(1) or m.group(2) or "")
                if 0 < len(s) <= 60:
                    strs.add(s)
                for w in re.findall(r"[A-Za-z_][A-Za-z0-9_]*", s):
                    words.add(w)
                if re.fullmatch(r"-?\d{1,80}", s):
                    nums.add(abs(int(s)))
            for m in CHAR.finditer(t):
                strs.add(unescape(m.group(1)))
            words.update(FN.findall(t))
            body = STR.sub('""', t)
            for m in NUM.finditer(body):
                try:
                    nums.add(int(m.group(1).replace("_", ""), 0) if not re.fullmatch(r"0[0-9_]+", m.group(1)) else int(m.group(1).replace("_", "")))
                except ValueError:
                    pass
            for m in SHIFT.finditer(body):
                if int(m.group(1)) <= 4096:
                    nums.add(1 << int(m.group(1)))
            for m in POW.finditer(body):
                if int(m.group(1)) <= 1000 and int(m.group(2)) <= 200:
                    nums.add(int(m.group(1)) ** int(m.group(2)))
    words = set(w for w in words if w not in KEYWORDS and len(w) <= 40 and w.strip("_"))
    return {"words": sorted(words), "nums": [str(n) for n in sorted(nums)], "strs": sorted(strs)}


_path = None


def novel():
    base = json.load(open(BASELINE, encoding="utf-8"))
    now = scan()
    return {k: [x for x in now[k] if x not in set(base[k])] for k in now}


def text():
    """one entry per line: kind (lower case: seen before, upper case: new) and the literal as JSON"""
    base = json.load(open(BASELINE, encoding="utf-8"))
    now = scan()
    lines = []
    for k, c in (("words", "w"), ("nums", "n"), ("strs", "s")):
        old = set(base[k])
        for x in now[k]:
            lines.append("%s %s" % (c if x in old else c.upper(), x.encode("utf-8").hex()))
    return "\n".join(lines) + "\n"


def prepare():
    """writes the dictionary and points the harnesses at it"""
    global _path
    os.makedirs(OUT, exist_ok=True)
    _path = os.path.join(OUT, "words.txt")
    tmp = _path + ".%d" % os.getpid()
    with open(tmp, "w") as f:
        f.write(text())
    os.replace(tmp, _path)
    os.environ["VERIF_WORDS"] = _path


def use(t):
    """for replays: the dictionary of the run that is repeated"""
    os.makedirs(OUT, exist_ok=True)
    p = os.path.join(OUT, "words-replay.txt")
    with open(p, "w") as f:
        f.write(t)
    os.environ["VERIF_WORDS"] = p


if __name__ == "__main__":
    json.dump(scan(), open(BASELINE, "w", encoding="utf-8"), indent=0, ensure_ascii=False, sort_keys=True)
    print({k: len(v) for k, v in scan().items()})
