"""Development helper: builds /verif/seeded/<id>/ from an edit list and a demo program, and verifies it in a scratch copy.

Used as a module:  seed(id, prop, edits, main_rs, needs, breaks)
edits: [(file under crates/, old, new)], main_rs: the program (exit 0 iff the property holds)
"""
import json, os, shutil, subprocess, sys
SCR = os.environ.get("SEED_SCRATCH", "/tmp/mut")
DEMO = '''#!/bin/bash
# Builds main.rs against the crates in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
fhe = { path = "$repo/crates/fhe"@FEAT@ }
fhe-math = { path = "$repo/crates/fhe-math" }
fhe-traits = { path = "$repo/crates/fhe-traits" }
fhe-util = { path = "$repo/crates/fhe-util" }
rand = "0.10"
rand_chacha = "0.10"
num-bigint = "0.5"
zeroize = "1"
@DEPS@
[profile.dev]
debug = 0
@PROF@
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" PATH="$PATH:/root/.cargo/bin" RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS RUSTC_WRAPPER
@RUN@
'''
RUN = '''cargo run --offline -q --manifest-path "$t/Cargo.toml" 2> "$t/log"
rc=$?
tail -n 15 "$t/log" >&2
exit $rc
'''
COV = '''export RUSTFLAGS="-Cinstrument-coverage" LLVM_PROFILE_FILE="$t/p-%p.profraw"
cargo build --offline -q --manifest-path "$t/Cargo.toml" || exit 2
rm -f "$t"/*.profraw
"$t/target/debug/demo" || exit 1
b=$(ls -d "$(rustc --print sysroot)"/lib/rustlib/*/bin)
"$b/llvm-profdata" merge -sparse "$t"/*.profraw -o "$t/p.profdata" || exit 2
"$b/llvm-cov" export -format=text -summary-only=false -instr-profile="$t/p.profdata" "$t/target/debug/demo" > "$t/cov.json" || exit 2
python3 - "$t/cov.json" <<'Y'
import json, sys
# number of executions of the functions whose mangled name ends in the given identifier
d = json.load(open(sys.argv[1]))["data"][0]["functions"]
bad = 0
for f in d:
    for n in @NAMES@:
        if ("%d%s" % (len(n), n)) in f["name"] and f["count"] and "{{" not in f["name"]:
            print(n, "executed", f["count"], "times"); bad = 1
sys.exit(bad)
Y
exit $?
'''

# two runs on different data of one shape must execute every part of the named source files equally often
TRACE = '''export RUSTFLAGS="-Cinstrument-coverage" LLVM_PROFILE_FILE="$t/build-%p.profraw"
cargo build --offline -q --manifest-path "$t/Cargo.toml" || exit 2
b=$(ls -d "$(rustc --print sysroot)"/lib/rustlib/*/bin)
for i in 0 1; do
  LLVM_PROFILE_FILE="$t/r$i.profraw" "$t/target/debug/demo" $i || exit 1
  "$b/llvm-profdata" merge -sparse "$t/r$i.profraw" -o "$t/r$i.profdata" || exit 2
  "$b/llvm-cov" export -format=text -instr-profile="$t/r$i.profdata" "$t/target/debug/demo" > "$t/r$i.json" || exit 2
done
python3 - "$t/r0.json" "$t/r1.json" <<'Y'
import json, sys
def counts(p):
    m = {}
    for f in json.load(open(p))["data"][0]["functions"]:
        if any(n in x for x in f["filenames"] for n in @NAMES@):
            for r in f["regions"]:
                k = (f["name"], tuple(r[:4]), r[7])
                m[k] = m.get(k, 0) + r[4]
    return m
a, b = map(counts, sys.argv[1:])
if not any(a.values()):
    sys.exit(2)
d = [k for k in sorted(set(a) | set(b)) if a.get(k, 0) != b.get(k, 0)]
for k in d[:5]:
    print("executed %s times on one input and %s on another of the same shape: %s %s" % (a.get(k, 0), b.get(k, 0), k[0], k[1]))
sys.exit(1 if d else 0)
Y
exit $?
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)

def seed(id, prop, edits, main, needs, breaks, mbfv=False, deps="", cov=None, prof="", release=False, trace=None):
    d = os.path.join("/verif/seeded", id)
    sh(["git", "-C", SCR, "checkout", "-q", "--", "."])
    for f, o, n in edits:
        p = os.path.join(SCR, "crates", f)
        s = open(p).read()
        if s.count(o) < 1:
            print(id, "PATTERN MISSING", f, o[:60]); return False
        if s.count(o) > 1:
            print(id, "note: pattern occurs", s.count(o), "times, first used")
        open(p, "w").write(s.replace(o, n, 1))
    diff = sh(["git", "-C", SCR, "diff"]).stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    demo = DEMO.replace("@FEAT@", ', features = ["experimental-mbfv"]' if mbfv else "").replace("@DEPS@", deps).replace("@PROF@", prof)
    run = COV.replace("@NAMES@", repr(tuple(cov))) if cov else RUN
    if trace: run = TRACE.replace("@NAMES@", repr(tuple(trace)))
    if release: run = run.replace("cargo run", "cargo run --release")
    open(d + "/demo.sh", "w").write(demo.replace("@RUN@", run))
    open(d + "/main.rs", "w").write(main)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    a = sh(["bash", d + "/demo.sh"], cwd=SCR)
    sh(["git", "-C", SCR, "checkout", "-q", "--", "."])
    b = sh(["bash", d + "/demo.sh"], cwd=SCR)
    ok = a.returncode != 0 and b.returncode == 0
    print(id, "demo patched rc", a.returncode, "clean rc", b.returncode, "OK" if ok else "BAD")
    if not ok or "error" in a.stderr:
        print("--- patched:", (a.stdout + a.stderr)[-1200:])
        if not ok: print("--- clean:", (b.stdout + b.stderr)[-1500:])
    return ok

def tests(ids):
    """runs the repository's tests with each patch; prints the failures"""
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=SCR + "-target", PROPTEST_RNG_SEED="1", PROPTEST_DISABLE_FAILURE_PERSISTENCE="true")
    for i in ids:
        sh(["git", "-C", SCR, "checkout", "-q", "--", "."])
        a = sh(["git", "-C", SCR, "apply", "/verif/seeded/%s/patch.diff" % i])
        if a.returncode: print(i, "does not apply", a.stderr); continue
        bad = []
        for flags in (["--features", "experimental-mbfv"], ["--all-features"]):
            r = sh(["cargo", "test", "--workspace", "--offline", "--locked"] + flags + ["--no-fail-fast", "--", "--test-threads", "8"], cwd=SCR, env=env)
            o = r.stdout + r.stderr
            bad += [l for l in o.splitlines() if l.startswith("test ") and l.endswith("FAILED")]
            if "error: could not compile" in o or r.returncode and not bad: bad.append("BUILD/RC " + o[-800:])
        print(i, "tests", "PASS" if not bad else "FAIL " + "\n   ".join(bad[:5]), flush=True)
        sh(["git", "-C", SCR, "checkout", "-q", "--", "."])

if __name__ == "__main__":
    if sys.argv[1] == "tests":
        tests(sys.argv[2:])
