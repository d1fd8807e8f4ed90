"""Builds (if needed) the rustc driver and the MIR facts for /repo's current tree, and loads them."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CRATES = ["embedftp", "rawler", "dnglab_lib", "dnglab"]
TOOLCHAIN = "nightly"

SKIP_DIRS = {".git", "target", "node_modules"}


def repo_files(exts=(".rs", ".toml", ".lock")):
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in SKIP_DIRS)
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def source_hash():
    h = hashlib.sha256()
    for p in repo_files():
        h.update(os.path.relpath(p, REPO).encode())
        h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    with open(os.path.join(VERIF, "driver", "driver.rs"), "rb") as f:
        h.update(f.read())
    return h.hexdigest()[:24]


CRATE_DIRS = {"embedftp": ["embedftp"], "rawler": ["rawler"], "dnglab_lib": ["bin/dnglab/dnglab-lib", "rawler", "embedftp"],
              "dnglab": ["bin/dnglab", "rawler", "embedftp"]}


def crate_hash(crate):
    """hash of everything the facts of one crate depend on"""
    h = hashlib.sha256()
    dirs = tuple(os.path.join(REPO, d) + os.sep for d in CRATE_DIRS[crate])
    for p in repo_files():
        if p.startswith(dirs) or os.path.dirname(p) == REPO:
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            with open(p, "rb") as f:
                h.update(f.read() + b"\0")
    with open(os.path.join(VERIF, "driver", "driver.rs"), "rb") as f:
        h.update(f.read())
    return h.hexdigest()[:24]


def _env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    e["RUSTC_ICE"] = "0"
    e["RUST_BACKTRACE"] = "0"
    return e


class BuildError(Exception):
    pass


def _driver(env):
    src = os.path.join(VERIF, "driver", "driver.rs")
    ver = subprocess.run(["rustc", "-vV"], env=env, capture_output=True, text=True).stdout
    h = hashlib.sha256(open(src, "rb").read() + ver.encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "driver-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(["rustc", "-O", "--edition", "2024", src, "-o", tmp], env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("driver build failed:\n" + r.stderr[-4000:])
        os.rename(tmp, exe)
        for f in os.listdir(BUILD):
            if f.startswith("driver-") and f != os.path.basename(exe):
                os.remove(os.path.join(BUILD, f))
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env, capture_output=True, text=True).stdout.strip()
    return exe, sysroot


# bin/dnglab/build.rs regenerates these tracked files; a check must leave them as they were
GENERATED = ["bin/dnglab/manpages", "bin/dnglab/completions"]


def _snapshot():
    snap = {}
    for g in GENERATED:
        p = os.path.join(REPO, g)
        if os.path.isdir(p):
            for d, _, fs in os.walk(p):
                for f in fs:
                    fp = os.path.join(d, f)
                    snap[fp] = open(fp, "rb").read()
    return snap


def _restore(snap):
    for g in GENERATED:
        p = os.path.join(REPO, g)
        if os.path.isdir(p):
            for d, _, fs in os.walk(p):
                for f in fs:
                    fp = os.path.join(d, f)
                    if fp not in snap:
                        os.remove(fp)
                    elif open(fp, "rb").read() != snap[fp]:
                        open(fp, "wb").write(snap[fp])
    for fp, c in snap.items():
        if not os.path.exists(fp):
            os.makedirs(os.path.dirname(fp), exist_ok=True)
            open(fp, "wb").write(c)


def ensure():
    """Returns the directory holding the facts of /repo's current tree."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        h = source_hash()
        out = os.path.join(BUILD, "facts-" + h)
        if os.path.exists(os.path.join(out, "DONE")):
            return out
        env = _env()
        exe, sysroot = _driver(env)
        hashes = {c: crate_hash(c) for c in CRATES}
        reuse = {}
        old = [os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith("facts-")]
        for d in old:
            for c in CRATES:
                hf = os.path.join(d, c + ".hash")
                if os.path.exists(os.path.join(d, "DONE")) and os.path.exists(hf) and open(hf).read() == hashes[c]:
                    reuse[c] = open(os.path.join(d, c + ".json"), "rb").read()
        for d in old:
            shutil.rmtree(d)
        os.makedirs(out)
        env["LD_LIBRARY_PATH"] = sysroot + "/lib"
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        env["FACTS_OUT"] = out
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
        snap = _snapshot()
        try:
            stale = [x for c in CRATES if c not in reuse for x in ("-p", c)]
            if stale:
                subprocess.run(["cargo", "clean", "--offline"] + stale, cwd=REPO, env=env, capture_output=True, text=True)
            r = subprocess.run(["cargo", "check", "--workspace", "--offline", "--locked"], cwd=REPO, env=env, capture_output=True, text=True)
            if r.returncode != 0 and "--locked" in r.stderr:
                r = subprocess.run(["cargo", "check", "--workspace", "--offline"], cwd=REPO, env=env, capture_output=True, text=True)
        finally:
            _restore(snap)
        if r.returncode != 0:
            raise BuildError("cargo check failed:\n" + r.stderr[-6000:])
        for c, data in reuse.items():
            if not os.path.exists(os.path.join(out, c + ".json")):
                open(os.path.join(out, c + ".json"), "wb").write(data)
        for c in CRATES:
            open(os.path.join(out, c + ".hash"), "w").write(hashes[c])
        missing = [c for c in CRATES if not os.path.exists(os.path.join(out, c + ".json"))]
        if missing:
            raise BuildError("no facts for crates %s" % missing)
        open(os.path.join(out, "DONE"), "w").write(h)
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == "__main__":
    t = time.time()
    try:
        print(ensure(), "%.1fs" % (time.time() - t))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
