"""Builds the driver (if needed) and the MIR facts of /repo's current tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
DRIVER = os.path.join(VERIF, "driver")
BIN = os.path.join(DRIVER, "target", "release", "factgen")


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTC_WRAPPER", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def run(cmd, cwd, e):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(f"{' '.join(cmd)} failed:\n{p.stdout[-4000:]}")
    return p.stdout


def hash_tree(dirs, h):
    files = []
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = [x for x in ds if x not in ("target", ".git", "inkfiles", "tests", "examples")]
            for f in fs:
                if f.endswith((".rs", ".toml", ".lock")):
                    files.append(os.path.join(root, f))
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())


def build_driver():
    src = max(os.path.getmtime(os.path.join(DRIVER, p)) for p in ("Cargo.toml", "src/main.rs"))
    if os.path.exists(BIN) and os.path.getmtime(BIN) >= src:
        return
    run(["cargo", "build", "--offline", "--release"], DRIVER, env())


def facts(features=None):
    """(directory, key); with features: of the runtime alone, built with them"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        h = hashlib.sha256()
        hash_tree([os.path.join(REPO, d) for d in ("runtime", "compiler", "rinklecate")], h)
        for f in ("Cargo.toml", "rust-toolchain.toml"):
            p = os.path.join(REPO, f)
            if os.path.exists(p):
                h.update(open(p, "rb").read())
        h.update(open(os.path.join(DRIVER, "src/main.rs"), "rb").read())
        key = h.hexdigest()[:24] + ("-" + features if features else "")
        out = os.path.join(CACHE, "facts", key)
        if os.path.exists(os.path.join(out, "DONE")):
            return out, key
        fd = os.path.join(CACHE, "facts")
        if os.path.isdir(fd):
            # keep a few recent trees only
            old = sorted(os.listdir(fd), key=lambda x: os.path.getmtime(os.path.join(fd, x)))
            for x in old[:-8]:
                shutil.rmtree(os.path.join(fd, x), ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        lock = os.path.join(REPO, "Cargo.lock")
        if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
            shutil.copy("/opt/vp/Cargo.lock", lock)
        tgt = os.path.join(CACHE, "fgt")
        fp = os.path.join(tgt, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("bladeink-", "bladeink_compiler-", "bladeink-compiler-", "rinklecate-")):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        for d in ("bladeink", "bladeink-compiler", "bladeink_compiler", "rinklecate"):
            shutil.rmtree(os.path.join(tgt, "debug", "build", d), ignore_errors=True)
        shutil.rmtree(os.path.join(tgt, "debug", "incremental"), ignore_errors=True)
        e = env()
        sysroot = run(["rustc", "--print", "sysroot"], VERIF, e).strip()
        e["LD_LIBRARY_PATH"] = sysroot + "/lib:" + e.get("LD_LIBRARY_PATH", "")
        e["RUSTC_WORKSPACE_WRAPPER"] = BIN
        e["FACTGEN_OUT"] = out
        e["FACTGEN_CRATES"] = "bladeink,bladeink_compiler,rinklecate"
        e["CARGO_TARGET_DIR"] = tgt
        run(["cargo", "check", "--offline", "-p", "rinklecate"] if not features else ["cargo", "check", "--offline", "-p", "bladeink", "--lib", "--features", features], REPO, e)
        have = {f for f in os.listdir(out) if f.endswith(".json")}
        for f in ("bladeink.json",) if features else ("bladeink.json", "bladeink_compiler.json", "rinklecate.bin.json"):
            if f not in have:
                raise BuildError(f"no facts for {f}")
        open(os.path.join(out, "DONE"), "w").close()
        return out, key


if __name__ == "__main__":
    print(facts()[0])
