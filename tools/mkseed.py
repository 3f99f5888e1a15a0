#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a description: mkseed.py FILE.py

FILE.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(path in /repo, old, new), ...], DEMO (main.rs text),
DEPS (list of ragu crates), FEATURES (optional dict crate -> features).
Confirms in a scratch copy of /repo: the patch applies, builds, passes the stable tests, and the demonstration
passes without it and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
ns = {}
exec(open(sys.argv[1]).read(), ns)
ID, DEPS = ns["ID"], ns["DEPS"]
d = os.path.join(V, "seeded", ID)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d + "/demo/src")
for s in ("ff", "group", "pasta_curves", "blake2b_simd"):
    shutil.copytree(V + "/shims/" + s, d + "/shims/" + s, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
open(d + "/demo/src/main.rs", "w").write(ns["DEMO"])
feats = ns.get("FEATURES", {})
deps = "".join('%s = { path = "/repo/crates/%s"%s }\n' % (c, c, ', features = %s' % json.dumps(feats[c]) if c in feats else "")
               for c in DEPS)
open(d + "/demo/Cargo.toml", "w").write("""[package]
name = "demo"
version = "0.0.0"
edition = "2024"

[workspace]

[dependencies]
%sff = "0.14.0-pre.0"
group = "0.14.0-pre.0"
pasta_curves = "0.5.1"
rand = "0.10"

[patch.crates-io]
ff = { path = "../shims/ff" }
group = { path = "../shims/group" }
pasta_curves = { path = "../shims/pasta_curves" }
blake2b_simd = { path = "../shims/blake2b_simd" }

[profile.release]
opt-level = %s
debug-assertions = %s
overflow-checks = true
codegen-units = 16
[profile.release.build-override]
opt-level = 0
""" % (deps, ns.get("OPT", "1"), ns.get("DEBUG", "false")))
shutil.copy(V + "/harness/full/Cargo.lock", d + "/demo/Cargo.lock")
open(d + "/demo.sh", "w").write("""#!/bin/sh
# Builds and runs the demonstration against /repo in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
cp -r "$here/demo" "$here/shims" "$scratch/" || exit 3
cd "$scratch/demo" || exit 3
CARGO_TARGET_DIR="$scratch/target" RUSTFLAGS="%s-Awarnings" cargo +1.90.0 run --release --offline --quiet
""" % ("--cfg ragu_verif " if ns.get("HOOK") else ""))
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)

tmp = tempfile.mkdtemp(prefix="seed-")
try:
    w = tmp + "/repo"
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    for f, old, new in ns["EDITS"]:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
finally:
    shutil.rmtree(tmp)

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, cwd="/repo", **k)

r0 = sh(d + "/demo.sh")
print("demo unchanged rc", r0.returncode, r0.stderr[-1500:] if r0.returncode else "")
assert sh("git status --porcelain").stdout == ""
assert sh("git apply " + d + "/patch.diff").returncode == 0
try:
    b = sh("bash /opt/vp/build.sh")
    t = sh("bash /opt/vp/test.sh /tmp/seed-test.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    got = json.load(open("/tmp/seed-test.json"))
    stable = base["stable"]
    passed = set(got.get("passed", []))
    want = set(stable if isinstance(stable, list) else [])
    print("build rc", b.returncode, "test rc", t.returncode, "missing", sorted(want - passed)[:5], len(want))
    r1 = sh(d + "/demo.sh")
    print("demo patched rc", r1.returncode, (r1.stdout + r1.stderr)[-700:])
finally:
    sh("git checkout -- .")
sh("bash /opt/vp/build.sh")
ok = r0.returncode == 0 and b.returncode == 0 and r1.returncode == 101 or r1.returncode == 1
print("SEED", ID, "OK" if r0.returncode == 0 and b.returncode == 0 and not (want - passed) and r1.returncode not in (0, 3) and "error[" not in r1.stderr and "could not compile" not in r1.stderr else "BAD")
