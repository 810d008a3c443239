"""plant.py [ID...]: builds /verif/seeded/<id>/ from tools/seeds/<id>.py and confirms it in a
scratch copy of /repo: the patch applies, the stable tests still pass, the demonstration passes
without and fails with the patch.  A seed file defines
  PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], HOST = file the demo module is
  appended to, DEMO = Rust test module body (may start with `use super::*;`)."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", INSTA_UPDATE="no",
           INSTA_OUTPUT="none", INSTA_FORCE_PASS="0", RUST_BACKTRACE="0", PATH="/root/.cargo/bin:" + os.environ["PATH"])
DEMO_SH = r'''#!/bin/bash
# Runs demo.rs as a test module of a scratch copy of the crate in the current directory.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$D"' EXIT
cp -a src Cargo.toml "$D/"
[ -f Cargo.lock ] && cp -a Cargo.lock "$D/"
[ -d tests ] && cp -a tests "$D/"
cp "$HERE/demo.rs" "$D/seeded_demo.rs"
printf '\n#[cfg(test)]\n#[path = "%s/seeded_demo.rs"]\nmod seeded_demo;\n' "$D" >> "$D/@HOST@"
cd "$D"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$D/target" CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
timeout 250 cargo test --offline --lib seeded_demo > log 2>&1 && rc=0 || rc=$?
tail -n 25 log
grep -qE "^test .*seeded_demo|seeded_demo.*overflowed its stack" log || { echo "demo did not run"; exit 3; }
exit $rc
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def stable(wt):
    base = json.load(open("/opt/vp/BASELINE.json"))
    r = sh("timeout -k 10 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8", wt)
    open(wt + "/t.log", "w").write(r.stdout)
    sh("python3 /opt/vp/results.py %s/out.json cargo:%s/t.log" % (wt, wt), wt)
    try:
        out = json.load(open(wt + "/out.json"))
    except Exception:
        return ["no results"], r.stdout
    return out, r.stdout


def passed(o):
    return set(o["passed"])


def plant(name, force):
    g = {}
    exec(open(os.path.join(HERE, "tools", "seeds", name + ".py")).read(), g)
    dst = os.path.join(HERE, "seeded", name)
    tmp = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    wt = os.path.join(tmp, "repo")
    try:
        subprocess.check_call(["cp", "-a", "/repo", wt])
        sh("git checkout -q -- . && git clean -fdq", wt)
        for f, old, new in g["EDITS"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "edit of %s matches %d times: %s" % (f, s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", wt).stdout
        # lines removed/changed must be the original repository's
        bl = sh("git diff -U0 | grep -E '^(---|@@|-)' | head -400", wt).stdout
        d2 = os.path.join(tmp, "seed")
        os.makedirs(d2)
        open(d2 + "/patch.diff", "w").write(diff)
        open(d2 + "/demo.sh", "w").write(DEMO_SH.replace("@HOST@", g["HOST"]))
        os.chmod(d2 + "/demo.sh", 0o755)
        demo = g["DEMO"]
        if g.get("PRELUDE"):
            demo = open(os.path.join(HERE, "tools", "seeds", g["PRELUDE"])).read() + "\n" + demo
        open(d2 + "/demo.rs", "w").write(demo)
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d2 + "/meta.json", "w"), indent=1)
        # touched original lines?
        orig = "7db4035"
        warn = []
        import re
        f = None
        for l in bl.splitlines():
            if l.startswith("--- "):
                f = l[6:]
            m = re.match(r"^@@ -(\d+)(?:,(\d+))?", l)
            if m and f:
                a, n = int(m.group(1)), int(m.group(2) or 1)
                if n:
                    b = sh("git blame -s -L %d,+%d HEAD -- %s" % (a, n, f), wt).stdout
                    new = [x for x in b.splitlines() if not x.startswith("^") and not x.startswith(orig)]
                    if new:
                        warn.append("touches own lines: " + new[0][:80])
        out, log = stable(wt)
        want = json.load(open("/opt/vp/BASELINE.json"))
        wl = set(want.get("stable") or want.get("tests") or want.get("passed") or want)
        if isinstance(out, list):
            return "tests gave no results\n" + log[-1500:]
        miss = wl - passed(out)
        if miss:
            return "stable tests fail: %s\n%s" % (sorted(miss)[:5], log[-800:])
        r = sh(["bash", d2 + "/demo.sh"], wt)
        if r.returncode == 0:
            return "demo does not fail with the patch\n" + r.stdout[-800:]
        bad = r.stdout
        if "error[" in bad or "error:" in bad and "test failed" not in bad and "overflowed its stack" not in bad or "did not run" in bad:
            return "demo does not compile with the patch\n" + bad[-3000:]
        sh("git checkout -q -- .", wt)
        r = sh(["bash", d2 + "/demo.sh"], wt)
        if r.returncode != 0:
            return "demo fails without the patch\n" + r.stdout[-2500:]
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(d2, dst)
        return "ok " + "; ".join(warn)
    finally:
        shutil.rmtree(tmp)


def main():
    names = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "tools", "seeds")) if f.endswith(".py"))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for n, r in zip(names, ex.map(lambda n: plant(n, True), names)):
            print(n, ":", r, flush=True)


if __name__ == "__main__":
    main()
