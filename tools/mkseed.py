#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a spec file and confirms it in a scratch copy of /repo.

    mkseed.py SPEC.py [ID…]

SPEC.py defines SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new)…], demo=…)};
demo is the source of a program that panics if the property is broken, or (with shell=True) of a
script. The change must build, pass the 22 stable tests, and make the demonstration fail, which
must pass without it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

DEMO = """#!/bin/bash
# Exit 0 if the property holds, nonzero if it is broken. Run with the repository as the directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
cubing = { path = "$repo/cubing" }
serde_json = "1"
[workspace]
END
cd "$dir" || exit 99
timeout %(timeout)s cargo %(toolchain)s %(verb)s --offline --quiet --target-dir "$dir/target" %(flags)s
"""


def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def tests(copy):
    code, out = sh("cargo test --workspace --offline 2>&1 | grep -E '^test .* \\.\\.\\. |^error' | sort -u", cwd=copy)
    ok = {l.split(" ... ")[0] for l in out.splitlines() if l.endswith("... ok")}
    bad = [l for l in out.splitlines() if not l.endswith("... ok") and "ignored" not in l]
    return ok, bad


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = sys.argv[2:]
    work = tempfile.mkdtemp(prefix="seedwork")
    copy = os.path.join(work, "repo")
    sh(["cp", "-a", REPO, copy])
    sh("git checkout -q -- .", cwd=copy)
    good_tests, bad = tests(copy)
    print("unchanged:", len(good_tests), "tests pass", bad)
    for sid, s in spec["SEEDS"].items():
        if only and sid not in only:
            continue
        sh("git checkout -q -- .", cwd=copy)
        d = os.path.join(work, sid)
        os.makedirs(d)
        if s.get("shell"):
            open(os.path.join(d, "demo.sh"), "w").write(s["demo"])
        else:
            open(os.path.join(d, "main.rs"), "w").write(s["demo"].lstrip("\n"))
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(
                timeout=s.get("timeout", 120), toolchain=s.get("toolchain", ""), verb=s.get("verb", "run"), flags=s.get("flags", "")))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=2)
        problem = None
        code, out = sh(["bash", os.path.join(d, "demo.sh")], cwd=copy)
        if code != 0:
            problem = "demo fails on the unchanged tree:\n" + out[-1500:]
        if not problem:
            for f, old, new in s["edits"]:
                p = os.path.join(copy, f)
                text = open(p).read()
                if text.count(old) != 1:
                    problem = f"{f}: old text occurs {text.count(old)} times: {old[:60]!r}"
                    break
                open(p, "w").write(text.replace(old, new))
        if not problem:
            sh("cargo fmt --all", cwd=copy) if s.get("fmt", True) else None
            code, diff = sh("git diff", cwd=copy)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            ok, bad = tests(copy)
            if ok != good_tests:
                problem = "tests: " + str(bad[:5]) + str(sorted(good_tests - ok)[:5])
        if not problem:
            code, out = sh(["bash", os.path.join(d, "demo.sh")], cwd=copy)
            if code == 0:
                problem = "demo passes with the change"
            elif "error: could not compile `demo`" in out:
                problem = "demo doesn't compile with the change: " + out[-800:]
        if problem:
            print(f"{sid}: BAD {problem}")
            continue
        dest = os.path.join(VERIF, "seeded", sid)
        if os.path.exists(dest):
            shutil.rmtree(dest)
        shutil.copytree(d, dest)
        last = [l for l in out.splitlines() if l.strip()][-4:]
        print(f"{sid}: kept ({code}) {' | '.join(last[:2])[:240]}")
    shutil.rmtree(work)


main()
