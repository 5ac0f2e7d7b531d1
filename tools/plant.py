#!/usr/bin/env python3
"""Builds and confirms planted bugs from specs (tools/bugs/*.py).

Each spec file defines BUGS: id -> dict(prop, edits=[(file, old, new)], demo=(file, rust code),
needs, breaks). For each: makes the patch in a scratch copy of /repo, checks that it builds and
passes the stable tests, that the demo passes without it and fails with it, and writes
/verif/seeded/<id>/.  usage: plant.py [--force] [ID...]
"""
import glob, json, os, re, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
DEMO = r'''#!/bin/bash
# Compiles a scratch copy of the crate with demo.rs appended to one of its modules and runs the
# demo tests there. Writes nowhere else.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/c" && cp -r "$repo/src" "$repo/Cargo.toml" "$d/c/" && { cp "$repo/Cargo.lock" "$d/c/" 2>/dev/null || true; }
cat "$here/demo.rs" >> "$d/c/$(cat "$here/target.txt")"
for k in 2 3; do
  if [ -e "$here/target$k.txt" ]; then cat "$here/demo$k.rs" >> "$d/c/$(cat "$here/target$k.txt")"; fi
done
cd "$d/c" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/t" CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
cargo test --offline --lib vp_demo -- --test-threads 1 > "$d/log" 2>&1
rc=$?
grep -A6 -E "^error|panicked" "$d/log" | head -40; tail -3 "$d/log"
grep -q 'running [1-9]' "$d/log" || exit 3
exit $rc
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=ENV, **k)
def passed(cwd):
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd, shell=True)
    return {m.group(1) for m in re.finditer(r"^test (\S+)(?: - .*)? \.\.\. ok$", r.stdout, re.M)}, r
def main():
    force = "--force" in sys.argv
    want = [a for a in sys.argv[1:] if not a.startswith("--")]
    stable = [x.split("::", 1)[1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
    bugs = {}
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "bugs", "*.py"))):
        bugs.update(runpy.run_path(f)["BUGS"])
    scr = tempfile.mkdtemp(prefix="plant-")
    try:
        w = os.path.join(scr, "r")
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        subprocess.run(["cp", "-a", "/repo/Cargo.lock", w])
        for i, b in bugs.items():
            out = os.path.join(HERE, "seeded", i)
            if want and i not in want or (os.path.exists(out) and not force and i not in want):
                continue
            subprocess.run(["git", "checkout", "-q", "."], cwd=w, check=True)
            bad = None
            for f, old, new in b["edits"]:
                p = os.path.join(w, f)
                s = open(p).read()
                if s.count(old) != 1:
                    bad = f"{f}: {s.count(old)} matches of {old!r}"
                    break
                open(p, "w").write(s.replace(old, new))
            if bad:
                print(i, "BAD EDIT", bad); continue
            diff = sh("git diff", w, shell=True).stdout
            ok, r = passed(w)
            miss = [t for t in stable if t not in ok]
            if miss:
                print(i, "FAILS TESTS", miss[:4], (r.stdout + r.stderr)[-600:] if len(miss) > 40 else ""); continue
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            tf, code = b["demo"]
            open(os.path.join(out, "target.txt"), "w").write(tf)
            open(os.path.join(out, "demo.rs"), "w").write(code)
            for k in (2, 3):
                if f"demo{k}" in b:
                    open(os.path.join(out, f"target{k}.txt"), "w").write(b[f"demo{k}"][0])
                    open(os.path.join(out, f"demo{k}.rs"), "w").write(b[f"demo{k}"][1])
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            bug = sh(["bash", os.path.join(out, "demo.sh")], w)
            subprocess.run(["git", "checkout", "-q", "."], cwd=w, check=True)
            clean = sh(["bash", os.path.join(out, "demo.sh")], w)
            if clean.returncode != 0 or bug.returncode != 101:
                print(i, f"DEMO: clean {clean.returncode} bug {bug.returncode}", clean.stdout[-1500:] if clean.returncode else bug.stdout[-800:])
                shutil.rmtree(out)
                continue
            print(i, "ok")
    finally:
        shutil.rmtree(scr)
main()
