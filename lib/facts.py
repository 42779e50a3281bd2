"""Facts extraction: runs the rustc_private driver over /repo's current tree
(cargo +nightly check) and loads the dumped MIR facts.  The result is cached
under /verif/cache keyed by a hash of every input, so a changed tree is always
re-analysed."""
import fcntl, glob, hashlib, json, os, pickle, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.path.join(VERIF, "cache")
TARGET = os.path.join(VERIF, "target")
FEATURES = "performant,compat,unstable"


def _files(root):
    out = []
    for base in ("src", "crates"):
        for d, dn, fs in os.walk(os.path.join(root, base)):
            dn[:] = [x for x in dn if x not in ("target", "tests", "benches")]
            for f in fs:
                if f.endswith((".rs", ".toml")):
                    out.append(os.path.join(d, f))
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(root, f)
        if os.path.exists(p):
            out.append(p)
    return sorted(out)


def tree_hash(root=None):
    root = root or REPO
    h = hashlib.sha256()
    fl = _files(root)
    fl += [os.path.join(VERIF, "driver/src/main.rs"),
           os.path.join(VERIF, "driver/src/json.rs"),
           os.path.join(VERIF, "lib/facts.py")]
    for f in fl:
        h.update(os.path.relpath(f, "/").encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _env():
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTC", "CARGO_BUILD_RUSTFLAGS",
              "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def build_driver():
    e = _env()
    e["CARGO_TARGET_DIR"] = os.path.join(VERIF, "target", "driver")
    r = subprocess.run(["cargo", "+nightly", "build", "--offline"],
                       cwd=os.path.join(VERIF, "driver"), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout)
        raise SystemExit("factdrv: driver does not build")
    return os.path.join(VERIF, "target", "driver", "debug", "factdrv")


def extract(out):
    drv = build_driver()
    e = _env()
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=e,
                             stdout=subprocess.PIPE, text=True).stdout.strip()
    e["LD_LIBRARY_PATH"] = sysroot + "/lib"
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "facts")
    e["RUSTFLAGS"] = "--cap-lints warn"
    e["RUSTC_WORKSPACE_WRAPPER"] = drv
    e["FACTS_OUT"] = out
    e["CARGO_INCREMENTAL"] = "0"
    # cargo's freshness cache would silently skip the wrapper
    for pat in (".fingerprint/pica-*", "build/pica-*", "deps/*pica*", "incremental/pica*"):
        for g in glob.glob(os.path.join(TARGET, "facts/debug", pat)):
            if os.path.isdir(g):
                shutil.rmtree(g, ignore_errors=True)
            else:
                os.unlink(g)
    r = subprocess.run(["cargo", "+nightly", "check", "--workspace", "--features",
                        FEATURES, "--offline"], cwd=REPO, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-4000:])
        raise SystemExit("factdrv: /repo does not build under the analysis driver")


def ensure():
    """returns the directory holding facts for the current tree"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(CACHE, "facts-" + tree_hash())
        want = ["pica_record-Rlib.json", "pica-Executable.json"]
        if not all(os.path.exists(os.path.join(d, w)) for w in want):
            tmp = d + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            extract(tmp)
            for w in want:
                if not os.path.exists(os.path.join(tmp, w)):
                    raise SystemExit("factdrv: no facts for " + w)
            shutil.rmtree(d, ignore_errors=True)
            os.rename(tmp, d)
            old = sorted(glob.glob(os.path.join(CACHE, "facts-*")), key=os.path.getmtime)
            for o in old[:-4]:
                if o != d:
                    shutil.rmtree(o, ignore_errors=True)
    return d


def load():
    d = ensure()
    pk = os.path.join(d, "all.pickle")
    if os.path.exists(pk):
        try:
            with open(pk, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    data = []
    for w in ("pica_record-Rlib.json", "pica-Executable.json"):
        with open(os.path.join(d, w)) as f:
            data.append(json.load(f))
    tmp = pk + ".%d" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump(data, f, protocol=4)
    os.replace(tmp, pk)
    return data


if __name__ == "__main__":
    import time
    t = time.time()
    d = load()
    for c in d:
        print(c["crate"], len(c["fns"]), "fns", len(c["adts"]), "adts", len(c["impls"]), "impls")
    print("%.1fs" % (time.time() - t))
