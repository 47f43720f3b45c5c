#!/usr/bin/env python3
"""Makes seeded/<id>/ from a specification and confirms it: the patch applies and builds, the stable
tests still pass, the demonstration passes on the unchanged tree and fails with the patch.

    mkseed.py SPEC.py [ID...]

SPEC.py defines SEEDS: a list of dicts with id, property, file, edits [(old, new)...], demo (body of
main.rs), needs and what. Works in a scratch copy of /repo."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds demo.rs against the crate of the current directory and runs it.
REPO="$(pwd)"
HERE="$(cd "$(dirname "$0")" && pwd)"
D="$(mktemp -d)"
trap 'rm -rf "$D"' EXIT
mkdir "$D/src"
cp "$HERE/demo.rs" "$D/src/main.rs"
cat > "$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
il2-iltags = { path = "$REPO" }
[workspace]
T
cd "$D" || exit 9
export CARGO_TARGET_DIR="$D/target"
cargo build --offline -q || exit 9
timeout 60 "$D/target/debug/demo"
'''
def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)
def main():
    spec = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    for s in spec:
        if only and s["id"] not in only:
            continue
        out = os.path.join(V, "seeded", s["id"])
        w = tempfile.mkdtemp(prefix="seedw")
        try:
            r = os.path.join(w, "repo")
            sh("cp -a /repo %s" % r)
            sh("git checkout -- . && git clean -fdq", r)
            ok = True
            for f, old, new in s["edits"]:
                p = os.path.join(r, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s["id"], "EDIT-COUNT", t.count(old), f, old[:60]); ok = False; break
                open(p, "w").write(t.replace(old, new))
            if not ok:
                continue
            diff = sh("git diff", r).stdout
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.rs"), "w").write(s["demo"])
            open(os.path.join(out, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            t = sh("cargo test --offline --lib 2>&1", r).stdout
            fails = sorted(set(l.split()[1] for l in t.splitlines() if l.startswith("test ") and "FAILED" in l))
            known = set(sh("cd /repo && cat /tmp/seed_known_fail 2>/dev/null").stdout.split())
            new_f = [f for f in fails if f not in known]
            if "test result" not in t:
                new_f = ["BUILD: " + t[-800:]]
            a = sh("bash %s/demo.sh" % out, r)
            sh("git checkout -- .", r)
            b = sh("bash %s/demo.sh" % out, r)
            good = not new_f and a.returncode != 0 and b.returncode == 0
            print(s["id"], "OK" if good else "BAD", "tests:", new_f, "demo patched:", a.returncode, "clean:", b.returncode)
            if not good:
                print("   ", a.stderr[-300:] if b.returncode else "")
                shutil.rmtree(out)
        finally:
            shutil.rmtree(w, ignore_errors=True)
main()
