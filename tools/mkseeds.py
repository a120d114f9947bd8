"""make and confirm seeded bugs: python3 mkseeds.py FILE.py [ids...]"""
import sys, os, subprocess, json, shutil, importlib.util
SR = "/tmp/seedrepo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
DEMO = '''#!/bin/bash
# Builds the program beside this file against the library in the current directory and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p "$work/demo/src"
cp "$here/main.rs" "$work/demo/src/main.rs"
cp "$here/Cargo.lock" "$work/demo/Cargo.lock"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" > "$work/demo/Cargo.toml"
cd "$work/demo"
export CARGO_TARGET_DIR="$work/target" RUSTFLAGS=-Awarnings
@RUN@
'''
CT = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[dependencies]
packed_struct = { path = "@REPO@/packed_struct"%s }
%s
[workspace]
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, env=ENV, **kw)

spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
want = sys.argv[2:]
if not os.path.isdir(SR):
    sh("cp -a /repo %s" % SR)
sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=SR)
for s in m.SEEDS:
    if want and s["id"] not in want: continue
    sh("git checkout -q -- .", cwd=SR)
    d = os.path.join(os.environ.get("SEED_OUT", "/verif/seeded"), s["id"])
    os.makedirs(d, exist_ok=True)
    for f, old, new in s["edits"]:
        p = os.path.join(SR, f); t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=SR).stdout)
    open(d + "/main.rs", "w").write(s["main"])
    for name, text in s.get("extra", {}).items(): open(d + "/" + name, "w").write(text)
    open(d + "/demo.sh", "w").write(DEMO.replace("@RUN@", s.get("run", "timeout 280 cargo run --offline -q"))); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/Cargo.toml.in", "w").write(CT % (s.get("features", ""), s.get("deps", "")))
    shutil.copy("/verif/harness/Cargo.lock", d + "/Cargo.lock")
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if os.environ.get("NOTEST"): continue
    b = sh("cargo test --workspace --offline 2>&1 | grep -E '^test |^error|panicked|test result: F'", cwd=SR)
    ok = b.stdout.count(" ... ok"); bad = [l for l in b.stdout.splitlines() if "FAILED" in l or l.startswith("error")]
    r1 = sh("bash %s/demo.sh" % d, cwd=SR)
    sh("git checkout -q -- .", cwd=SR)
    r0 = sh("bash %s/demo.sh" % d, cwd=SR)
    print(s["id"], "tests ok", ok, "bad", bad[:4], "| patched rc", r1.returncode, "| clean rc", r0.returncode, flush=True)
    if r1.returncode == 0 or r0.returncode != 0: print("PATCHED:", r1.stdout[-600:], "\nCLEAN:", r0.stdout[-800:])
    else: print("   ", r1.stdout.strip().splitlines()[-1:][0][:200] if r1.stdout.strip() else "")
