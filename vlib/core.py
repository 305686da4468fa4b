"""Machinery shared by all checks: build the worker, run cases on the real code, run TLC, report."""
import concurrent.futures
import hashlib
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKER_MEMORY = 4 << 30
NCPU = max(1, min(8, os.cpu_count() or 1))


class ToolError(Exception):
    """The check itself could not do its work (exit 2); says nothing about the code."""


class Violation(Exception):
    def __init__(self, what, case=None, outcome=None):
        super().__init__(what)
        self.what, self.case, self.outcome = what, case, outcome


def cargo_env(hooks=True):
    env = dict(os.environ)
    env.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
        CARGO_INCREMENTAL="0",
        RUSTFLAGS="--cfg puzzle_verif" if hooks else "",
    )
    for k in ("CARGO_PROFILE_DEV_DEBUG", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    return env


def build():
    """Builds the worker against /repo's working tree; returns (path of binary, seconds, with hooks)."""
    t = time.time()
    cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml")]
    p = subprocess.run(cmd, env=cargo_env(True), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    hooks = p.returncode == 0
    if not hooks:
        # internal names the hooks refer to may have moved; the public API is enough for most checks
        p = subprocess.run(cmd, env=cargo_env(False), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("building the worker failed:\n" + p.stdout[-4000:])
    return os.path.join(BUILD, "target", "debug", "pz"), time.time() - t, hooks


def dump(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


class Tlc:
    """Result of one TLC run."""

    def __init__(self, rc, out, secs):
        self.rc, self.out, self.secs = rc, out, secs
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.ok = rc == 0 and "No error has been found" in out


def tlc(module, cfg, meta, workers=NCPU, env=None, timeout=600, heap="6g", extra=()):
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss128m", "-cp", JARS, "tlc2.TLC", "-nowarning",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {module} {cfg} exceeded {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(p.returncode, p.stdout, time.time() - t)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random(f"{prop}:{seed}")
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, "run", f"{prop}-{tier}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.traces = 0
        self.models, self.samples, self.notes, self.counts = [], [], {}, {}
        self.bin = None
        self.pool = concurrent.futures.ThreadPoolExecutor(8)
        self.pending = []
        self.hooked = None
        self._n = 0

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # ---------------------------------------------------------------- design models
    def model(self, module, cfg, workers=4, timeout=800, heap="6g"):
        """Model-checks a design model in the background; finish() waits for it."""
        def go():
            r = tlc(module, cfg + ".cfg", os.path.join(self.dir, "m_" + cfg), workers=workers, timeout=timeout, heap=heap)
            if not r.ok:
                raise ToolError(f"the design model {module}/{cfg} does not check:\n{r.out[-3000:]}")
            return module, cfg, r
        self.pending.append(self.pool.submit(go))

    def finish_models(self):
        for f in self.pending:
            module, cfg, r = f.result()
            self.models.append({"module": module, "config": cfg, "states": r.distinct, "transitions": r.generated,
                                "seconds": round(r.secs, 1)})
            self.states += r.distinct
            self.transitions += r.generated
        self.pending = []

    # ---------------------------------------------------------------- running the real code
    def worker(self):
        if self.bin is None:
            b, secs, self.hooked = build()
            # a private copy, so that a later build cannot change what a running check executes
            self.bin = os.path.join(self.dir, "pz")
            shutil.copy2(b, self.bin)
            self.notes["build_s"] = round(secs, 1)
        return self.bin

    def hooks(self):
        """Whether the internal parts can be reached. If they have been renamed or reshaped, the checks of internal
        parts fall back on what the public functions show of them, and the evidence says so."""
        self.worker()
        if not self.hooked:
            self.notes["degraded"] = "the internal part could not be reached; judged through the public functions"
        return self.hooked

    def _run_chunk(self, tag, cases, limit):
        """Runs cases in one worker process, restarting it behind a case that crashes or hangs."""
        cfile, ofile = (os.path.join(self.dir, f"{tag}.{x}") for x in ("in", "out"))
        dump(cfile, cases)
        open(ofile, "w").close()
        outs, start, bad = {}, 0, 0
        while start < len(cases):
            p = subprocess.Popen([self.bin, "run", cfile, ofile, str(start)], stdout=subprocess.DEVNULL,
                                 stderr=subprocess.PIPE, env={**os.environ, "RUST_BACKTRACE": "0"})
            try:  # a call that asks for memory without end shall fail (an outcome), not exhaust the machine
                resource.prlimit(p.pid, resource.RLIMIT_AS, (WORKER_MEMORY, WORKER_MEMORY))
            except (ProcessLookupError, OSError):
                pass
            size, since, killed = -1, time.time(), False
            while True:
                try:
                    p.wait(timeout=0.2)
                    break
                except subprocess.TimeoutExpired:
                    s = os.path.getsize(ofile)
                    if s != size:
                        size, since = s, time.time()
                    elif time.time() - since > limit:
                        p.kill()
                        p.wait()
                        killed = True
                        break
            err = p.stderr.read().decode(errors="replace")
            done = 0
            with open(ofile) as f:
                for line in f:
                    if line.endswith("\n"):
                        r = json.loads(line)
                        outs[r["i"]] = r["out"]
                        done = r["i"] + 1
            if p.returncode == 0 and not killed:
                break
            if p.returncode in (2, 3) and not killed:
                raise ToolError("worker: " + err[-2000:])
            if p.returncode == -9 and not killed:
                raise ToolError("worker was ended from outside (out of memory?)")
            at = max(start, done)
            outs[at] = {"k": "hang" if killed else "crash", "signal": 0 if killed else -p.returncode}
            with open(ofile, "a") as f:
                f.write(json.dumps({"i": at, "out": outs[at]}) + "\n")
            start = at + 1
            bad += 1
            # enough evidence; do not spend the whole budget on a broken tree
            if bad >= 3 or killed and limit > 100:
                break
        return outs

    def run(self, cases, limit=60, procs=NCPU, fresh=False):
        """Executes cases on the real code; returns events (case + outcome), crashes and hangs included.
        fresh: every case in a process of its own."""
        self.worker()
        self._n += 1
        procs = max(1, len(cases) if fresh else min(procs, len(cases)))
        chunks = [list(range(k, len(cases), procs)) for k in range(procs)]
        futs = [self.pool_run(f"r{self._n}_{k}", [cases[j] for j in idx], limit) for k, idx in enumerate(chunks)]
        events = [None] * len(cases)
        for idx, f in zip(chunks, futs):
            for pos, out in f.result().items():
                ev = dict(cases[idx[pos]])
                ev["out"] = out
                events[idx[pos]] = ev
        return [e for e in events if e is not None]

    def pool_run(self, tag, cases, limit):
        if not hasattr(self, "rpool"):
            self.rpool = concurrent.futures.ThreadPoolExecutor(NCPU)
        return self.rpool.submit(self._run_chunk, tag, cases, limit)

    # ---------------------------------------------------------------- the specification as generator
    def expect(self, cases, module="Expect"):
        """Lets TLC derive, per case, what the specification says the call must produce (field exp)."""
        src, dst = (os.path.join(self.dir, f"exp{self._n}.{x}") for x in ("in", "out"))
        self._n += 1
        dump(src, cases)
        r = tlc(module, module + ".cfg", os.path.join(self.dir, "m_exp"), workers=1, timeout=800,
                env={"CASES": src, "EXPECT": dst})
        if not r.ok:
            raise ToolError("deriving expectations failed:\n" + r.out[-3000:])
        with open(dst) as f:
            exp = [json.loads(x) for x in f]
        if len(exp) != len(cases):
            raise ToolError(f"{len(exp)} expectations for {len(cases)} cases")
        for c, e in zip(cases, exp):
            c["exp"] = e
        return cases

    # ---------------------------------------------------------------- conformance
    def conform(self, events, module="Conform", drop=("exp", "bg"), rename=None, timeout=800, heap="8g", what=None):
        """TLC decides whether every recorded event is explained by the specification."""
        if not events:
            raise ToolError("no events to validate")
        rows = []
        for e in events:
            r = {k: v for k, v in e.items() if k not in drop}
            if rename:
                r["op"] = rename
            rows.append(r)
        self._n += 1
        tfile = os.path.join(self.dir, f"trace{self._n}.ndjson")
        dump(tfile, rows)
        r = tlc(module, module + ".cfg", os.path.join(self.dir, "m_conf"), timeout=timeout, heap=heap,
                env={"TRACE": tfile})
        if not r.ok:
            idx = None
            m = re.findall(r"(?:/\\ )?\bevent = (\d+)", r.out)
            if m:
                idx = int(m[-1]) - 1
            if "is violated" in r.out and idx is not None:
                raise Violation(what or "the specification does not explain this outcome", events[idx], tail(r.out))
            if re.search(r"OutOfMemory|StackOverflow|Parsing or semantic|Unknown operator", r.out):
                raise ToolError(f"TLC on {module} failed:\n{r.out[-3000:]}")
            if idx is not None and ("Attempted to" in r.out or "evaluat" in r.out):
                raise Violation("the outcome has a shape for which the specification has no meaning",
                                events[idx], tail(r.out))
            if "Attempted to" in r.out:
                # the error is not attributed to a state; find the event by validating one at a time
                if len(events) > 1:
                    mid = len(events) // 2
                    self.conform(events[:mid], module, drop, rename, timeout, heap, what)
                    self.conform(events[mid:], module, drop, rename, timeout, heap, what)
                else:
                    raise Violation("the outcome has a shape for which the specification has no meaning",
                                    events[0], tail(r.out))
            raise ToolError(f"TLC on {module} failed:\n{r.out[-3000:]}")
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(events)
        key = rename or module
        self.counts[key] = self.counts.get(key, 0) + len(events)
        self.notes["conformance_s"] = round(self.notes.get("conformance_s", 0) + r.secs, 1)
        for e in self.rng.sample(rows, min(2, len(rows))):
            if len(self.samples) < 6:
                t = json.dumps(e)
                self.samples.append(e if len(t) < 1500 else t[:1500] + "...")
        return r

    # ---------------------------------------------------------------- verdict
    def evidence(self, violations, assumptions):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"],
                         "design_models": self.models, "events_by_kind": self.counts, **self.notes},
            "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": violations,
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def tail(out):
    return out[-1500:]


def known_findings(prop):
    """Entries of known_findings.jsonl: {"property", "key", "what"} (open) or {"fixed": ...} (ignored)."""
    path = os.path.join(ROOT, "known_findings.jsonl")
    res = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.strip():
                    r = json.loads(line)
                    if r.get("property") == prop and "key" in r:
                        res.append(r)
    return res


def main(props, argv):
    if len(argv) < 2 or argv[1] not in props:
        print("usage: check.py PROPERTY [--tier quick|thorough]")
        return 2
    prop = argv[1]
    tier = argv[argv.index("--tier") + 1] if "--tier" in argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    fn, assumptions = props[prop]
    try:
        for k in known_findings(prop):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        try:
            fn(ctx)
            ctx.finish_models()
        except Violation as v:
            rdir = os.path.join(BUILD, "replay")
            os.makedirs(rdir, exist_ok=True)
            blob = json.dumps({"property": prop, "what": v.what, "event": v.case, "tlc": v.outcome}, indent=1)
            path = os.path.join(rdir, f"{prop}-{hashlib.sha1(blob.encode()).hexdigest()[:10]}.json")
            with open(path, "w") as f:
                f.write(blob)
            ctx.evidence(1, assumptions)
            short = json.dumps(v.case)
            print(f"{prop}: {v.what}: {short[:600]}")
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        ctx.evidence(0, assumptions)
        print(f"{prop} {tier}: held; {ctx.traces} recorded behaviours validated, {ctx.states} states, "
              f"{time.time() - ctx.t0:.1f} s")
        return 0
    except ToolError as e:
        print(f"{prop}: check error: {e}", file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(ctx.dir, ignore_errors=True) if not os.environ.get("VERIF_KEEP") else None
        ctx.pool.shutdown(wait=False, cancel_futures=True)


def setup():
    """Builds the worker once; every check rebuilds it from /repo's working tree anyway."""
    try:
        b, secs, _ = build()
        print(f"worker built in {secs:.1f} s: {b}")
        return 0
    except ToolError as e:
        print(e, file=sys.stderr)
        return 1
