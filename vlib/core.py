"""Machinery shared by all checks: building the harness, running it, running TLC, evidence."""
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The check itself could not be carried out (exit 2)."""


def cargo_env():
    env = dict(os.environ)
    env.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never",
               RUSTC_WRAPPER="", RUST_BACKTRACE="0")
    env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS"):
        env.pop(k, None)
    return env


def build():
    """Builds the harness against /repo's working tree and returns the path of the binary."""
    fp = os.path.join(HARNESS, "target", "debug", ".fingerprint")
    if os.path.isdir(fp):   # cargo compares modification times only
        for d in os.listdir(fp):
            if d.startswith("trane-") or d.startswith("vharness-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    lock = os.path.join(HARNESS, "Cargo.lock")
    for attempt in range(2):
        r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=HARNESS, env=cargo_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=800)
        if r.returncode == 0:
            return os.path.join(HARNESS, "target", "debug", "vharness")
        if attempt == 0 and "lock" in r.stdout.lower() and os.path.exists(lock):
            continue
        break
    raise ToolError("the harness does not build against /repo:\n" + r.stdout[-4000:])


class Violation:
    def __init__(self, tag, text, program=None, event=None, extra=None):
        self.tag, self.text, self.program, self.event, self.extra = tag, text, program, event, extra


def fast_dir(pid):
    """A folder in memory for the libraries the harness creates, when there is room for one."""
    try:
        fs = os.statvfs("/dev/shm")
        if fs.f_bavail * fs.f_frsize > 6 << 30:
            return tempfile.mkdtemp(prefix=f"verif-{pid}-", dir="/dev/shm")
    except OSError:
        pass
    return None


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.fast = fast_dir(pid)
        self.states = self.transitions = self.traces = self.events = 0
        self.stats, self.stages, self.samples = {}, [], []
        self.violations, self.notes = [], []
        self.exhaustive = []
        self._bin = None
        self._n = 0

    @property
    def bin(self):
        if self._bin is None:
            self._bin = build()
        return self._bin

    def clean(self):
        for d in (self.work, self.fast):
            if d:
                shutil.rmtree(d, ignore_errors=True)

    def elapsed(self):
        return time.time() - self.t0

    def rng(self, salt):
        return random.Random(f"{self.seed}/{salt}")

    def path(self, name):
        self._n += 1
        return os.path.join(self.work, f"{self._n}-{name}")

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- TLC -----------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, timeout=None, workers=8, args=(), mem="8g", ok_codes=(0,)):
        """Runs TLC on a module of /verif/spec; returns its output. Anything but success is a tool error."""
        timeout = timeout or self.n(400, 3000)
        meta = self.path("meta")
        out = self.path(module + ".out")
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", f"-Xmx{mem}", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or module + ".cfg", *args, module + ".tla"]
        with open(out, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                raise ToolError(f"TLC on {module} took more than {timeout} s")
        shutil.rmtree(meta, ignore_errors=True)
        txt = open(out, errors="replace").read()
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        if rc not in ok_codes:
            i = txt.find("Error")
            raise ToolError(f"TLC on {module} ended with {rc}:\n{txt[i:i + 6000]}")
        return txt, rc, (int(m[-1][1]) if m else 0)

    def mc(self, module, cfg=None, env=None, timeout=None, what="", args=()):
        """Checks a model of the design; it must hold (it does not depend on /repo)."""
        t = time.time()
        txt, _, n = self.tlc(module, cfg, env, timeout, args=args)
        for name, k in re.findall(r'<<\s*"STAT",\s*"(\w+)",\s*(\d+)\s*>>', txt):
            self.stats[name] = self.stats.get(name, 0) + int(k)
        self.stages.append({"stage": f"model {cfg or module}", "states": n, "s": round(time.time() - t, 1), "what": what})
        self.exhaustive.append(module)
        return txt

    def refuted(self, module, env, what=""):
        """A model with something essential taken away: TLC must find an error, or the model says nothing."""
        t = time.time()
        _, rc, n = self.tlc(module, env=env, ok_codes=(0, 11, 12, 13))
        if rc == 0:
            raise ToolError(f"{module} holds even {what}")
        self.stages.append({"stage": f"model {module}", "states": n, "s": round(time.time() - t, 1), "what": f"fails, as it must, {what}"})

    def behaviours(self, module, env, what="", timeout=None, args=(), cfg=None):
        """Explores a model and returns the behaviours it printed, for replay on the real code."""
        txt = self.mc(module, cfg and cfg + ".cfg", env=env, what=what, timeout=timeout, args=args)
        out = []
        for m in re.findall(r'<<\s*"RUN",\s*"((?:[^"\\]|\\.)*)"\s*>>', txt, re.S):
            out.append(json.loads(m.replace('\\"', '"').replace("\\\\", "\\")))
        if not out:
            raise ToolError(f"{module} printed no behaviours")
        return out

    # ---- conformance ----------------------------------------------------
    def run_harness(self, kind, programs, timeout=None, threads=8, env=None):
        """Executes the programs on the real code, in several processes; returns the traces, or a Violation for a program
        that killed or hung its process."""
        timeout = timeout or self.n(240, 1800)
        base = self.path(kind)
        tmp = os.path.join(self.fast or self.work, os.path.basename(base) + ".tmp")
        os.mkdir(tmp)
        e = dict(os.environ)
        e.update(VH_THREADS="1", TMPDIR=tmp, RUST_BACKTRACE="0", RAYON_NUM_THREADS="2")
        e.update(env or {})

        def run(name, progs, limit):
            src, dst = f"{base}.{name}.programs.ndjson", f"{base}.{name}.traces.ndjson"
            with open(src, "w") as f:
                for p in progs:
                    f.write(json.dumps(p) + "\n")
            p = subprocess.Popen([self.bin, kind, src, dst], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                                 cwd=tmp, start_new_session=True)
            try:
                _, err = p.communicate(timeout=limit)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.communicate()
                return None, "no answer", None
            if p.returncode:
                return p.returncode, err, None
            with open(dst) as f:
                res = [json.loads(l) for l in f]
            os.unlink(dst)
            return 0, "", res

        out = [None] * len(programs)
        bad, failed = 0, []
        self.bin
        k = min(threads, len(programs))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for i, (rc, err, res) in enumerate(ex.map(lambda i: run(i, programs[i::k], timeout), range(k))):
                if rc == 0:
                    out[i::k] = res
                else:
                    failed.append((rc, err, list(range(i, len(programs), k))))
            # Something died or hung: find out which programs do, one process each.
            for rc0, err0, todo in failed:
                found = 0
                for i, (rc, err, res) in zip(todo, ex.map(lambda i: run(f"p{i}", [programs[i]], 60) if bad < 10 else (0, "", [None]), todo)):
                    if rc == 0:
                        out[i] = res[0]
                        continue
                    bad, found = bad + 1, found + 1
                    what = "did not return within 60 s" if rc is None else f"ended the process ({rc}): {err[-300:]}"
                    self.violations.append(Violation("ABORT", f"program {programs[i].get('id')} {what}", programs[i]))
                if not found and bad < 10:
                    if rc0 is None:
                        raise ToolError(f"the harness needed more than {timeout} s for {len(todo)} programs")
                    raise ToolError(f"the harness failed ({rc0}) and does not fail on any single program: {err0[-500:]}")
        shutil.rmtree(tmp, ignore_errors=True)
        return out

    def trace(self, kind, programs, module, tags, what="", timeout=None, keep=None, env=None, threads=8):
        """Programs -> real code -> traces -> TLC with a trace specification. `tags` are the judgements that count for
        this property; None means all."""
        t = time.time()
        if not programs:
            return {}
        raw = self.run_harness(kind, programs, timeout, threads=threads, env=env)
        pairs = []
        for p, tr in zip(programs, raw):
            if tr is None:
                continue
            if "harness_error" in tr:
                if "No space left" in tr["harness_error"]:
                    raise ToolError(tr["harness_error"])
                self.violations.append(Violation("FAILED", tr["harness_error"], p))
                continue
            pairs.append((p, tr))
        stats = {}
        if pairs:
            judged, n, stats, failed = self.judge(module, pairs, timeout)
            self.events += n
            self.traces += len(pairs)
            seen = set()
            for tid, pc, tag, text in judged:
                if (tid, pc, tag) in seen or not (tags is None or tag in tags or tag in ALWAYS):
                    continue
                seen.add((tid, pc, tag))
                p, tr = pairs[tid]
                evs = tr.get("ev", [])
                ev = evs[int(pc) - 1] if 0 < int(pc) <= len(evs) else None
                self.violations.append(Violation(tag, text.replace('\\"', '"')[:1500], p, int(pc), ev))
            if failed and not self.violations:
                raise ToolError(failed)
            if not self.samples or len(self.samples) < 3:
                p, tr = pairs[len(pairs) // 2]
                self.samples.append({"stage": what or module, "program": shorten(p), "events": len(tr.get("ev", []))})
        for k, v in stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.stages.append({"stage": f"traces {module} {what}".strip(), "programs": len(programs), "stats": stats,
                            "s": round(time.time() - t, 1)})
        return stats

    def judge(self, module, pairs, timeout):
        """The judgements of TLC on the traces. A trace that TLC cannot evaluate (code gone so wrong that a value is
        outside of what the specification can look at) is set aside and the others are judged without it; that is a
        failure of the check unless one of the judgements stands."""
        failed, out, left = "", [], list(range(len(pairs)))
        for _ in range(4):
            f = self.path("judge.ndjson")
            with open(f, "w") as o:
                for i in left:
                    o.write(json.dumps(pairs[i][1]) + "\n")
            txt, rc, n = self.tlc(module, env={"TRACES": f}, timeout=timeout, ok_codes=(0, 75, 76, 77))
            # TLC breaks long values over several lines
            found = re.findall(r'<<\s*"VIOL",\s*(\d+),\s*(\d+),\s*"(\w+)",\s*"((?:[^"\\]|\\.)*)"\s*>>', txt, re.S)
            if len(found) != len(re.findall(r'<<\s*"VIOL"', txt)):
                if rc == 0:
                    raise ToolError("unreadable judgement: " + txt[txt.find('"VIOL"') - 20:][:300])
            out += [(left[int(t) - 1], pc, tag, text) for t, pc, tag, text in found if int(t) <= len(left)]
            if rc == 0:
                stats = {}
                for name, k in re.findall(r'<<\s*"STAT",\s*"(\w+)",\s*(\d+)\s*>>', txt):
                    stats[name] = stats.get(name, 0) + int(k)
                return out, n, stats, failed
            i = txt.find("Error")
            failed = failed or f"TLC on {module} ended with {rc}:\n{txt[i:i + 6000]}"
            bad = re.findall(r"^(?:/\\ )?tid = (\d+)", txt[i:], re.M) or re.findall(r"^/\\ tid = (\d+)", txt, re.M)
            if not bad:
                break
            left.pop(int(bad[-1]) - 1)
        return out, 0, {}, failed

    def need(self, stats, **mins):
        """A run that compared nothing is an error of the check, unless something is already broken."""
        if self.violations:
            return
        for k, m in mins.items():
            if stats.get(k, 0) < m:
                raise ToolError(f"vacuous run: {k} = {stats.get(k, 0)} < {m} in {stats}")


ALWAYS = {"PANIC", "OPEN"}


def shorten(p, limit=2500):
    s = json.dumps(p)
    return p if len(s) <= limit else {"id": p.get("id"), "json": s[:limit] + "..."}


def known_findings():
    """Lines of known-findings.txt: 'property=<id> tag=<tag> match=<regex> :: <description>' and 'fixed: ...'."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) tag=(\w+) match=/(.*?)/ :: (.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out


def finish(ctx, level="model_checking", error=None):
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    known, new = {}, []
    for v in ctx.violations:
        for pid, tag, rx, desc in known_findings():
            if pid == ctx.pid and tag == v.tag and re.search(rx, v.text + json.dumps(v.program)):
                known[desc] = known.get(desc, 0) + 1
                break
        else:
            new.append(v)
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
           "samples": ctx.samples or [{"note": "no trace stage completed"}], "compared": ctx.stats, "stages": ctx.stages}
    if ctx.notes:
        cov["notes"] = ctx.notes
    evidence = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
                "wall_s": round(ctx.elapsed(), 1), "violations": len(new)}
    if error:
        evidence["coverage"]["error"] = error[:2000]
    with open(os.path.join(ev_dir, ctx.pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for d, k in known.items():
        print(f"KNOWN-FINDING: property={ctx.pid} {d} ({k} observations)")
    if new:
        # the smallest program first
        new.sort(key=lambda v: len(json.dumps(v.program)) if v.program else 0)
        rp = os.path.join(ev_dir, f"replay-{ctx.pid}.json")
        with open(rp, "w") as f:
            json.dump([{"tag": v.tag, "text": v.text, "event": v.event, "observed": v.extra, "program": v.program}
                       for v in new[:20]], f, indent=1)
        tags = {}
        for v in new:
            tags[v.tag] = tags.get(v.tag, 0) + 1
        print(f"{len(new)} violations: {tags}; first: {new[0].tag}: {new[0].text[:400]}")
        print(f"VIOLATION property={ctx.pid} replay={rp}")
    ctx.clean()
    return 1 if new else 0


def main(checks):
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    ctx = Ctx(pid, "thorough" if tier == "thorough" else "quick", seed)
    try:
        checks[pid](ctx)
    except ToolError as e:
        if not ctx.violations:
            finish(ctx, error=str(e))
            print("TOOL ERROR:", e)
            return 2
        print("tool error after violations:", str(e)[:500])
    except BaseException:
        ctx.clean()
        raise
    rc = finish(ctx)
    print(f"{pid} {ctx.tier}: {'ok' if rc == 0 else 'VIOLATED'}; {ctx.traces} traces, {ctx.events} trace states, {ctx.states} states, "
          f"{ctx.elapsed():.0f} s; {ctx.stats}")
    return rc
