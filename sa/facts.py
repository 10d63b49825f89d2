"""Builds the MIR facts of /repo's current working tree (driver + cargo check)."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
DRIVER_SRC = os.path.join(VERIF, "driver")
CONFIGS = {
    "native": ["--features", "experimental-mbfv"],
    "all": ["--all-features"],
}
CRATES = ["fhe_traits", "fhe_util", "fhe_math", "fhe"]


class FactsError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC"):
            del e[k]
    e["HOME"] = e.get("HOME") or "/root"
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def _run(cmd, env, cwd):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def driver_bin():
    tgt = os.path.join(BUILD, "driver")
    b = os.path.join(tgt, "debug", "mirfacts")
    h = hashlib.sha256()
    for f in ("Cargo.toml", "src/main.rs"):
        h.update(open(os.path.join(DRIVER_SRC, f), "rb").read())
    stamp = os.path.join(tgt, "stamp-" + h.hexdigest()[:16])
    if os.path.exists(b) and os.path.exists(stamp):
        return b
    env = _env()
    env["CARGO_TARGET_DIR"] = tgt
    rc, out = _run(["cargo", "build", "--offline"], env, DRIVER_SRC)
    if rc != 0 or not os.path.exists(b):
        raise FactsError("driver does not build:\n" + out[-4000:])
    open(stamp, "w").write("ok")
    return b


def repo_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "crates")]
    files = [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            if "target" in ds:
                ds.remove("target")
            for f in sorted(fs):
                files.append(os.path.join(d, f))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode())
            h.update(b"\0")
            h.update(open(f, "rb").read())
            h.update(b"\0")
    return h.hexdigest()[:24]


def build(config):
    """Returns the directory holding the facts of the current tree for `config`."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver_bin()
        dh = hashlib.sha256(open(drv, "rb").read()).hexdigest()[:8]
        out = os.path.join(BUILD, "facts", repo_hash() + "-" + dh, config)
        need = [os.path.join(out, c + ".lib.json") for c in CRATES] + [os.path.join(out, "meta", "deps.json")]
        if all(os.path.exists(n) for n in need) and _present(need[-1]):
            return out
        # keep the cache small: only the last few trees
        base = os.path.join(BUILD, "facts")
        if os.path.isdir(base):
            old = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
            for d in old[:-16]:
                shutil.rmtree(d, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        tgt = os.path.join(BUILD, "target-" + config)
        # cargo's freshness cache would skip the wrapper: drop the workspace crates' fingerprints
        fp = os.path.join(tgt, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("fhe"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        bd = os.path.join(tgt, "debug", "build")
        if os.path.isdir(bd):
            for d in os.listdir(bd):
                if d.startswith("fhe"):
                    shutil.rmtree(os.path.join(bd, d), ignore_errors=True)
        env = _env()
        sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env, stdout=subprocess.PIPE, text=True).stdout.strip()
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
        env["CARGO_TARGET_DIR"] = tgt
        env["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
        env["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "false"
        env["CARGO_PROFILE_DEV_DEBUG"] = "0"
        env["RUSTFLAGS"] = "-Zmir-opt-level=0 --cap-lints=allow"
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["MIRFACTS_DIR"] = out
        rc, log = _run(
            ["cargo", "check", "--workspace", "--lib", "--offline", "--locked"] + CONFIGS[config], env, REPO
        )
        if rc != 0:
            shutil.rmtree(out, ignore_errors=True)
            raise FactsError("the tree does not compile under the analysis toolchain:\n" + log[-4000:])
        _metadata(tgt, out)
        miss = [n for n in need if not os.path.exists(n)]
        if miss:
            shutil.rmtree(out, ignore_errors=True)
            raise FactsError("no facts written for " + ", ".join(miss) + "\n" + log[-2000:])
        return out


def _present(deps):
    d = json.load(open(deps))
    return all(p and os.path.exists(p) for p in d["extern"].values()) and all(map(os.path.isdir, d["dirs"]))


def _metadata(tgt, out):
    """keeps the compiler metadata of the workspace crates beside the facts of the tree they belong to"""
    md = os.path.join(out, "meta")
    os.makedirs(md, exist_ok=True)
    dirs, found, rand = set(), {}, []
    for d, ds, fs in os.walk(os.path.join(tgt, "debug")):
        for f in fs:
            if f.startswith("lib") and f.endswith(".rmeta") or f.endswith(".so"):
                dirs.add(d)
                n = f[3:].split("-")[0].split(".")[0]
                p = os.path.join(d, f)
                if n == "rand" and f.endswith(".rmeta"):
                    rand.append(p)
                if f.endswith(".rmeta") and (n not in found or os.path.getmtime(p) > os.path.getmtime(found[n])):
                    found[n] = p
    ext = {}
    for c in CRATES:
        if c not in found:
            return
        q = os.path.join(md, os.path.basename(found[c]))
        shutil.copyfile(found[c], q)
        ext[c] = q
    own = {os.path.dirname(found[c]) for c in CRATES}
    ext["num_bigint"] = found.get("num_bigint")
    json.dump({"extern": ext, "rand": sorted(rand), "dirs": sorted(dirs - own if len(own) == len(CRATES) else dirs)},
              open(os.path.join(md, "deps.json"), "w"))


def load(config):
    d = build(config)
    return {c: json.load(open(os.path.join(d, c + ".lib.json"))) for c in CRATES}


if __name__ == "__main__":
    for c in sys.argv[1:] or CONFIGS:
        t = time.time()
        print(c, build(c), round(time.time() - t, 1))
