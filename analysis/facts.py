"""Builds the fact extractor and extracts MIR facts from /repo's current tree.

Facts are cached under /verif/.build/facts/<hash> where the hash covers every source file
of the two crates, the manifests, the lock file and the extractor itself."""
import hashlib, json, os, shutil, subprocess, sys, fcntl, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("GENCO_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"


class FactsError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC", "CARGO_BUILD_RUSTFLAGS",
              "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    return e


def sources():
    out = []
    for top in ("src", "genco-macros"):
        for root, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
            for f in sorted(files):
                out.append(os.path.join(root, f))
    for f in ("Cargo.toml", "Cargo.lock", "README.md"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def tree_hash():
    h = hashlib.sha256()
    for p in sources():
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    for p in driver_sources():
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def driver_sources():
    d = os.path.join(VERIF, "driver")
    return [os.path.join(d, "Cargo.toml")] + sorted(
        os.path.join(d, "src", f) for f in os.listdir(os.path.join(d, "src")))


def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def run(cmd, e, cwd):
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def sysroot(e):
    rc, out = run(["rustc", "--print", "sysroot"], e, VERIF)
    if rc:
        raise FactsError("rustc --print sysroot failed: " + out)
    return out.strip().splitlines()[-1]


def build_driver():
    e = env()
    with lock("driver"):
        rc, out = run(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "driver")],
                      e, os.path.join(VERIF, "driver"))
    if rc:
        raise FactsError("building the fact extractor failed:\n" + out[-4000:])
    return os.path.join(BUILD, "driver", "release", "genco-facts")


def extract():
    """Returns {crate: facts-json}."""
    h = tree_hash()
    dst = os.path.join(BUILD, "facts", h)
    done = os.path.join(dst, "done")
    if not os.path.exists(done):
        drv = build_driver()
        with lock("facts"):
            if not os.path.exists(done):
                os.makedirs(dst, exist_ok=True)
                e = env()
                e["LD_LIBRARY_PATH"] = os.path.join(sysroot(e), "lib")
                e["RUSTC_WORKSPACE_WRAPPER"] = drv
                e["GENCO_FACTS_OUT"] = dst
                e["GENCO_FACTS_CRATES"] = "genco,genco_macros"
                tgt = os.path.join(BUILD, "target")
                e["CARGO_TARGET_DIR"] = tgt
                e["CARGO_INCREMENTAL"] = "0"
                # never trust cargo's freshness for the crates under analysis
                for sub in (("debug", ".fingerprint"), ("debug", "build")):
                    fp = os.path.join(tgt, *sub)
                    if os.path.isdir(fp):
                        for d in os.listdir(fp):
                            if d.startswith("genco"):
                                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
                rc, out = run(["cargo", "check", "--offline", "--lib", "-p", "genco", "-p", "genco-macros"], e, REPO)
                if rc:
                    raise FactsError("cargo check of /repo failed:\n" + out[-4000:])
                for c in ("genco", "genco_macros"):
                    if not os.path.exists(os.path.join(dst, c + ".json")):
                        raise FactsError("no facts for crate %s were produced:\n%s" % (c, out[-2000:]))
                prune(dst)
                open(done, "w").write(str(time.time()))
    res = {}
    for c in ("genco", "genco_macros"):
        with open(os.path.join(dst, c + ".json")) as f:
            res[c] = json.load(f)
    return res


def prune(keep):
    base = os.path.join(BUILD, "facts")
    ds = [os.path.join(base, d) for d in os.listdir(base)]
    ds = sorted((d for d in ds if os.path.isdir(d) and d != keep), key=os.path.getmtime)
    for d in ds[:-3]:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    t = time.time()
    try:
        f = extract()
    except FactsError as ex:
        print(ex)
        sys.exit(2)
    for c, j in f.items():
        print(c, "insts", len(j["insts"]), "with body", sum(1 for i in j["insts"] if i and "blocks" in i),
              "roots", len(j["roots"]), "impls", len(j["impls"]), "types", len(j["types"]))
    print("%.1fs" % (time.time() - t))
