#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE-OF-EDITS: author a planted bug.
The edits file (python) defines: edits = [(file relative to /repo, old, new)], needs, breaks, demo (rust main body), kind ('alg' or 'lang')."""
import json, os, shutil, subprocess, sys, runpy, tempfile
sid, prop, spec = sys.argv[1:4]
S = runpy.run_path(spec)
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
R = tempfile.mkdtemp()
subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
for f, old, new in S["edits"]:
    p = os.path.join(R, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
shutil.rmtree(R)
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": S["needs"], "what_it_breaks": S["breaks"]}, open(d + "/meta.json", "w"), indent=1)
open(d + "/main.rs", "w").write(S["demo"])
prof = S.get("profile", "release")
if S.get("kind", "alg") in ("alg", "asan", "miri"):
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# builds main.rs (beside this file) against the sm_algorithm crate of the current directory and runs it
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'cd /; find "$tmp" -delete' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
sm_algorithm = { path = "$repo/projects/sm-algorithm" }
num = "0.2"
[profile.release]
opt-level = 2
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
cd "$tmp"
cargo +nightly build -q --%s 2>"$tmp/log" || { cat "$tmp/log"; exit 3; }
timeout 120 "$tmp/target/%s/demo"
''' % (("release", "release") if prof == "release" else ("profile=dev", "debug")))
elif S["kind"] == "lang":
    open(d + "/demo.sh", "w").write(open("/verif/tools/demo_lang.sh").read())
    subprocess.run(["rm", "-rf", d + "/shims"])
    subprocess.run(["cp", "-r", "/verif/overlay/shims", d + "/shims"], check=True)
if S.get("kind") == "asan":
    t = open(d + "/demo.sh").read()
    t = t.replace("export CARGO_NET", 'export RUSTFLAGS="-Zsanitizer=address -Cdebug-assertions=off" ASAN_OPTIONS=exitcode=86:detect_leaks=1\nexport CARGO_NET').replace("-q --release", "-q --release --target x86_64-unknown-linux-gnu").replace("target/release", "target/x86_64-unknown-linux-gnu/release")
    open(d + "/demo.sh", "w").write(t)
if S.get("kind") == "miri":
    t = open(d + "/demo.sh").read()
    a = t.index("cargo +nightly build")
    t = t[:a] + 'export MIRI_SYSROOT="$tmp/sysroot" MIRIFLAGS=-Zmiri-disable-isolation\ncargo +nightly miri setup -q >"$tmp/log" 2>&1 || { cat "$tmp/log"; exit 3; }\ntimeout 200 cargo +nightly miri run -q\n'
    open(d + "/demo.sh", "w").write(t)
os.chmod(d + "/demo.sh", 0o755)
print(diff)
