"""Build the extractor if needed, compile /repo's current tree with it (in a scratch
copy that is removed afterwards) and return the dumped program."""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DRIVER = os.path.join(VERIF, "driver")
REPO = os.environ.get("ONX_REPO", "/repo")


class ExtractError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR",
              "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def build_driver(log=sys.stderr):
    """Build the driver; cargo's own freshness check makes this a no-op when it is up to date."""
    e = _env()
    td = os.environ.get("ONX_DRIVER_TARGET", os.path.join(DRIVER, "target"))
    e["CARGO_TARGET_DIR"] = td
    r = subprocess.run(["cargo", "+nightly", "build", "--offline"], cwd=DRIVER, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    exe = os.path.join(td, "debug", "onx-driver")
    if r.returncode != 0 or not os.path.exists(exe):
        raise ExtractError("driver build failed:\n" + r.stdout[-4000:])
    return exe


def copy_src(dst, repo=None):
    repo = repo or REPO
    def ign(d, names):
        return [n for n in names if n in (".git", "target") or (d == repo and n in ("data",))
                or (d == os.path.join(repo, "tests") and n in ("samples", "snapshots"))]
    shutil.copytree(repo, dst, ignore=ign, symlinks=True)
    lock = os.path.join(dst, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lock)


def extract(repo=None, features=None, keep=None):
    exe = build_driver()
    tmp = tempfile.mkdtemp(prefix="onx-")
    try:
        src = os.path.join(tmp, "src")
        copy_src(src, repo)
        out = os.path.join(tmp, "out")
        os.mkdir(out)
        e = _env()
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=e,
                                 capture_output=True, text=True).stdout.strip()
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        e["ONX_OUT"] = out
        e["CARGO_TARGET_DIR"] = os.path.join(tmp, "target")
        e["CARGO_INCREMENTAL"] = "0"
        e["RUSTFLAGS"] = "-Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=on"
        cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--bins"]
        if features:
            cmd += ["--features", features]
        r = subprocess.run(cmd, cwd=src, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ExtractError("repository does not compile under the extractor:\n" + r.stdout[-6000:])
        progs = {}
        for f in glob.glob(os.path.join(out, "*.json")):
            with open(f) as fh:
                progs[os.path.basename(f)[:-5]] = json.load(fh)
        if "onenote_parser" not in progs:
            raise ExtractError("no dump for the library crate: " + str(list(progs)) + r.stdout[-2000:])
        return progs
    finally:
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    t = time.time()
    if len(sys.argv) > 1 and sys.argv[1] == "setup":
        print(build_driver())
        sys.exit(0)
    p = extract(sys.argv[2] if len(sys.argv) > 2 else None)
    json.dump(p, open(sys.argv[1], "w"))
    print({k: len(v["bodies"]) for k, v in p.items()}, round(time.time() - t, 1))
