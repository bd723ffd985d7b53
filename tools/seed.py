#!/usr/bin/env python3
"""seed.py WORKDIR SPEC.py...: make planted bugs and confirm them in a scratch copy of /repo.

A spec defines property, needs, breaks, edits = [(file, old, new)], demo (source of a Rust program that exits 0 when the property
holds) and optionally twin (then demo is a program that must not compile and twin one that must; with must_compile=True both must)
and timeout. The result goes to /verif/seeded/<spec name>/."""
import json, os, runpy, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds demo.rs against the crate in the current directory, in a scratch folder, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/seeddemo.XXXXXX) || exit 90
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
cat > "$work/Cargo.toml" <<EOT
[package]
name = "seeddemo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
crossmist = { path = "$repo", features = ["tokio", "smol"] }
libc = "0.2"
tokio = { version = "1", features = ["fs", "macros", "net", "rt", "sync", "time"] }
smol = "2"
macro_rules_attribute = "0.2"
EOT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.81.0 CARGO_NET_OFFLINE=true RUSTFLAGS=--cap-lints=allow
cd "$work" || exit 91
CARGO_TARGET_DIR="$work/target" cargo build --offline -q > build.log 2>&1 || { tail -40 build.log; exit 92; }
timeout -k 5 @TIMEOUT@ ./target/debug/seeddemo
'''


MISUSE = DEMO[:DEMO.index("CARGO_TARGET_DIR=")] + '''build() { cp "$here/$1" src/main.rs; CARGO_TARGET_DIR="$work/target" timeout -k 5 250 cargo build --offline -q > build.log 2>&1; }
build twin.rs || { tail -40 build.log; exit 92; }
if build demo.rs; then echo "the misuse in demo.rs compiles"; exit 1; fi
exit 0
'''


COMPILES = MISUSE.replace('if build demo.rs; then echo "the misuse in demo.rs compiles"; exit 1; fi', 'if ! build demo.rs; then tail -40 build.log; exit 1; fi')


def sh(c, cwd=None, timeout=900):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def main():
    work = sys.argv[1]
    repo = os.path.join(work, "repo")
    if not os.path.exists(repo):
        os.makedirs(work, exist_ok=True)
        sh(f"cp -a /repo {repo}")
        vp = os.path.join(work, "vp")
        sh(f"cp -a /opt/vp {vp}")
        sh(f"sed -i 's#/opt/vp#{vp}#g; s#/repo#{repo}#g' {vp}/*.sh")
    vp = os.path.join(work, "vp")
    head = sh("git rev-parse HEAD", cwd="/repo")[1].strip()
    if sh("git rev-parse HEAD", cwd=repo)[1].strip() != head:
        sh(f"git fetch -q /repo && git checkout -q -f {head}", cwd=repo)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for spec in sys.argv[2:]:
        name = os.path.basename(spec)[:-3]
        s = runpy.run_path(spec)
        sh("git checkout -q -- .", cwd=repo)
        bad = None
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                bad = f"{f}: {t.count(old)} occurrences of {old[:60]!r}"
                break
            open(p, "w").write(t.replace(old, new))
        if bad:
            print(name, "BAD EDIT", bad)
            continue
        d = os.path.join(V, "seeded", name)
        os.makedirs(d, exist_ok=True)
        diff = sh("git diff", cwd=repo)[1]
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.rs"), "w").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write((COMPILES if s.get("must_compile") else MISUSE if "twin" in s else DEMO).replace("@TIMEOUT@", str(s.get("timeout", 60))))
        if "twin" in s:
            open(os.path.join(d, "twin.rs"), "w").write(s["twin"])
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc, out = sh(f"bash {vp}/build.sh")
        if rc:
            print(name, "DOES NOT BUILD", out[-1500:])
            shutil.rmtree(d)
            continue
        sh(f"bash {vp}/test.sh {work}/out.json")
        passed = set(json.load(open(f"{work}/out.json"))["passed"])
        miss = sorted(stable - passed)
        if miss:
            print(name, "FAILS TESTS", miss[:6])
            shutil.rmtree(d)
            continue
        rc1, o1 = sh(f"bash {d}/demo.sh", cwd=repo)
        sh("git checkout -q -- .", cwd=repo)
        rc0, o0 = sh(f"bash {d}/demo.sh", cwd=repo)
        ok = rc0 == 0 and rc1 not in (0, 92)
        print(name, "OK" if ok else "NOT CONFIRMED", "clean", rc0, "patched", rc1)
        if not ok or rc1 == 92:
            print("--- clean", o0[-1200:], "\n--- patched", o1[-1200:])
            if "--keep" not in os.environ.get("SEED", ""):
                shutil.rmtree(d)


main()
