#!/usr/bin/env python3
"""Generates /verif/seeded/<id> from tools/seeds/<id>.py (property, needs, breaks, edits, main; optional release, deps, shell)
and confirms it in a scratch copy of /repo: mkseed.py <id>... ; --check also runs the check of the property against it."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/sd"
DEMO = r'''#!/bin/bash
# cwd: the repository; exit 0 if the property holds on this input
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
rm -rf "/tmp/mbqc_demo_@ID@"
mkdir -p "/tmp/mbqc_demo_@ID@/src" || exit 3
trap 'rm -rf "/tmp/mbqc_demo_@ID@"' EXIT
cp "$here/main.rs" "/tmp/mbqc_demo_@ID@/src/main.rs" || exit 3
cat > "/tmp/mbqc_demo_@ID@/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
mbqc_scheduling = { path = "$repo/mbqc_scheduling" }
@DEPS@
EOF
cp "$repo/mbqc_scheduling/Cargo.lock" "/tmp/mbqc_demo_@ID@/Cargo.lock" 2>/dev/null || cp /opt/vp/mbqc_scheduling.Cargo.lock "/tmp/mbqc_demo_@ID@/Cargo.lock"
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="/tmp/mbqc_demo_@ID@/target"
cd "/tmp/mbqc_demo_@ID@" || exit 3
cargo build --offline -q @REL@ || exit 4
@RUN@
'''


def sh(c, **kw):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **kw)


def main(argv):
    check = "--check" in argv
    ids = [a for a in argv if not a.startswith("--")]
    os.makedirs(W, exist_ok=True)
    repo = W + "/repo"
    subprocess.run(["rsync", "-a", "--delete", "/repo/", repo + "/"], check=False) if shutil.which("rsync") else (os.path.isdir(repo) or shutil.copytree("/repo", repo, symlinks=True))
    for i in ids or sorted(f[:-3] for f in os.listdir(V + "/tools/seeds") if f.endswith(".py")):
        d = {}
        exec(open("%s/tools/seeds/%s.py" % (V, i)).read(), d)
        sh("git -C %s checkout -q -- ." % repo)
        out = "%s/seeded/%s" % (V, i)
        os.makedirs(out, exist_ok=True)
        for f, old, new in d["edits"]:
            p = "%s/%s" % (repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(i, "EDIT does not match once:", f, s.count(old), old[:60])
                break
            open(p, "w").write(s.replace(old, new))
        else:
            open(out + "/patch.diff", "w").write(sh("git -C %s diff" % repo).stdout)
            rel = "--release" if d.get("release") else ""
            run = d.get("run", "timeout -k 5 %d target/%s/demo" % (d.get("timeout", 120), "release" if rel else "debug"))
            open(out + "/demo.sh", "w").write(DEMO.replace("@ID@", i).replace("@REL@", rel).replace("@DEPS@", d.get("deps", "")).replace("@RUN@", run))
            os.chmod(out + "/demo.sh", 0o755)
            open(out + "/main.rs", "w").write(d["main"].lstrip("\n"))
            json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            env = dict(os.environ, CARGO_TARGET_DIR=repo + "/mbqc_scheduling/target", PROPTEST_RNG_SEED="1", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
            t = sh("cargo test --workspace --no-fail-fast --offline -- --skip timer::tests 2>&1; echo RC $?; cargo test --offline --test roundtrip -- --ignored 2>&1; echo RC $?", cwd=repo + "/mbqc_scheduling", env=env)
            tests = t.stdout.count("\nRC 0") == 2
            b = sh("bash %s/demo.sh" % out, cwd=repo)
            a = sh("bash %s/demo.sh" % out, cwd="/repo") if "--fast" not in argv else None
            r = ""
            if check:
                e = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD="/tmp/sd/build", VERIF_EVIDENCE="/tmp/sd/ev")
                c = subprocess.run([sys.executable, V + "/analysis/check.py", d["property"]], env=e, capture_output=True, text=True)
                r = "check: rc %d %s" % (c.returncode, [l[:200] for l in c.stdout.splitlines() if "violated:" in l][:2])
            print(i, d["property"], "tests", tests, "| unchanged:", a and a.returncode, "| patched:", b.returncode, r)
            if not tests:
                print(t.stdout[-1500:])
            if a is not None and a.returncode != 0:
                print("UNCHANGED:", a.stdout[-500:], a.stderr[-800:])
            if b.returncode in (3, 4, 0):
                print("PATCHED:", b.stdout[-500:], b.stderr[-800:])
            elif b.returncode:
                print("   ", (b.stdout + b.stderr).strip().splitlines()[-1:][:1])
        sh("git -C %s checkout -q -- ." % repo)


main(sys.argv[1:])
