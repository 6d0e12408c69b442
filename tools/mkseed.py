#!/usr/bin/env python3
"""mkseed.py ID: makes seeded/ID from /tmp/seeds/ID.py (variables prop, needs, breaks, edits=[(file, old, new)], demo), using the
scratch copy /tmp/scratch of /repo, and confirms it there: it builds, the tests pass, the demo tells the difference."""
import json, os, runpy, subprocess, sys
ID = sys.argv[1]
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
S = "/tmp/scratch"
d = os.path.join(R, "seeded", ID)
src = runpy.run_path(f"/tmp/seeds/{ID}.py")
env = dict(os.environ, DEMO_TARGET="/tmp/demo-target")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, cwd=S, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def stop(msg, out=""):
    sh("rsync -a --delete --exclude target --exclude .git /repo/ /tmp/scratch/")
    print(ID, "REJECTED:", msg, out[-3000:])
    sys.exit(1)


sh("rsync -a --delete --exclude target /repo/ /tmp/scratch/")
os.makedirs(d, exist_ok=True)
open(f"{d}/demo.rs", "w").write(open(os.path.join(R, "tools/demo/prelude.rs")).read() + src["demo"])
open(f"{d}/demo.sh", "w").write(open(os.path.join(R, "tools/demo/demo.sh")).read())
json.dump({"property": src["prop"], "needs": src["needs"], "what_it_breaks": src["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
r = sh(f"bash {d}/demo.sh")
if r.returncode:
    stop("demo fails on the unchanged tree", r.stdout)
for f, old, new in src["edits"]:
    p = f"{S}/{f}"
    t = open(p).read()
    if t.count(old) != 1:
        stop(f"{t.count(old)} matches in {f}: {old[:80]}")
    open(p, "w").write(t.replace(old, new))
diff = sh("git diff -- src").stdout
open(f"{d}/patch.diff", "w").write(diff)
# only lines of the original repository
added = subprocess.run("git diff 7e00903 HEAD -- src", shell=True, cwd=S, stdout=subprocess.PIPE, text=True).stdout
mine = {l[1:].strip() for l in added.splitlines() if l.startswith("+") and len(l.strip()) > 6}
touched = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
if touched and all(l in mine for l in touched if len(l) > 5):
    print("WARNING: removes only lines added by fix commits")
r = sh(f"bash {d}/demo.sh")
if r.returncode == 0:
    stop("demo passes with the change")
if r.returncode == 3:
    stop("does not build", r.stdout)
print(ID, "demo with the change:", r.returncode, r.stdout.strip().splitlines()[-1:][0][:200] if r.stdout.strip() else "")
if "--notest" not in sys.argv:
    t = sh("export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= "
           "CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_RUNNER='setpriv --bounding-set=-dac_override,-dac_read_search' TMPDIR=$(mktemp -d /tmp/tt.XXXXXX); rm -rf target/debug/.fingerprint/trane-*;"
           "cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E '^test .*FAILED|^test result|^error'; chmod -R u+rwX $TMPDIR; rm -rf $TMPDIR")
    bad = [l for l in t.stdout.splitlines() if "FAILED" in l and l.startswith("test ") and "result" not in l]
    if bad or "error" in t.stdout or "test result" not in t.stdout:
        stop("tests fail", t.stdout)
sh("rsync -a --delete --exclude target --exclude .git /repo/ /tmp/scratch/")
print(ID, "ok")
