#!/usr/bin/env python3
"""plant.py SPEC.py [--check]: builds seeded/<id>/ from a spec (id, prop, edits [(file, old, new)], needs, breaks, main),
confirming in a scratch copy of /repo that the change builds, passes the tests, and that the demonstration
passes without and fails with it.  --check also runs the property's check against it in /repo (undone afterwards)."""
import json, os, shutil, subprocess, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# links the crate in the current directory and runs main.rs (beside this file)
set -e
repo=$(pwd); here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d)
trap 'rm -r -- "$t"' EXIT
mkdir "$t/src"; cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
micromath = { path = "$repo", features = ["quaternion", "statistics", "vector"] }
X
cd "$t"
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable PATH=$PATH:/root/.cargo/bin CARGO_TARGET_DIR="$t/target"
cargo run -q --offline@REL@
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def plant(id, prop, edits, needs, breaks, main, release=False, check=False):
    d = os.path.join(H, "seeded", id)
    w = "/tmp/plant-" + id
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", w])
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=w)
    try:
        os.makedirs(d, exist_ok=True)
        open(d + "/main.rs", "w").write(main)
        open(d + "/demo.sh", "w").write(DEMO.replace("@REL@", " --release" if release else ""))
        r = sh(["bash", d + "/demo.sh"], w, timeout=300)
        if r.returncode:
            return print(id, "DEMO FAILS UNCHANGED", r.stdout[-600:])
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], w).stdout
        env = dict(os.environ, CARGO_TARGET_DIR=w + "/target", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
        r = sh(["cargo", "test", "--workspace", "--all-features", "--offline"], w, env=env)
        if r.returncode:
            return print(id, "TESTS FAIL", [l for l in r.stdout.splitlines() if "FAILED" in l or "error" in l][:5])
        r = sh(["bash", d + "/demo.sh"], w, timeout=300)
        if not r.returncode:
            return print(id, "DEMO PASSES WITH CHANGE")
        out = r.stdout.strip().splitlines()
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    print(id, prop, "planted;", next((l for l in out if "panicked" not in l), "")[:120])
    if check:
        recheck(id)


def recheck(id):
    d = os.path.join(H, "seeded", id)
    prop = json.load(open(d + "/meta.json"))["property"]
    assert sh(["git", "apply", d + "/patch.diff"], "/repo").returncode == 0
    try:
        t = time.time()
        r = sh(["python3-vt", "check.py", prop], H, timeout=900)
        print("  check", prop, "rc", r.returncode, "%.0fs" % (time.time() - t), [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "ERROR"))][:2], flush=True)
    finally:
        sh(["git", "checkout", "--", "."], "/repo")


if __name__ == "__main__":
    if sys.argv[1] == "--recheck":
        for i in sys.argv[2:] or sorted(os.listdir(H + "/seeded")):
            print(i)
            recheck(i)
    else:
        for s in [a for a in sys.argv[1:] if a[0] != "-"]:
            ns = {}
            exec(open(s).read(), ns)
            for b in ns["BUGS"]:
                if not any(a.startswith("--only=") for a in sys.argv) or ("--only=" + b["id"]) in sys.argv:
                    plant(**b, check="--check" in sys.argv)
