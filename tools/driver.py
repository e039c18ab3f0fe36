"""Shared machinery of the checks: building the harness against /repo, running TLC, running the
conformance programs, collecting violations, writing evidence."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VERIF_BUILD_DIR", os.path.join(VERIF, ".build"))
REPLAYS = os.path.join(VERIF, "replays")
CORES = os.cpu_count() or 8


class ToolError(Exception):
    """The check could not do its work; says nothing about the property."""


def repo_path():
    return re.search(r'veb-tree\s*=.*path\s*=\s*"([^"]+)"', open(os.path.join(HARNESS, "Cargo.toml")).read())[1]


FRESH = threading.Lock()


def fresh(target, profile, env):
    """Cargo trusts file times; this goes by contents: what was built from other sources than /repo's present ones is thrown away."""
    root, h = repo_path(), hashlib.sha256()
    files = [os.path.join(root, "Cargo.toml")]
    for d, _, fs in os.walk(os.path.join(root, "src")):
        files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, f"sources-{profile}")
    with FRESH, open(os.path.join(target, "sources.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(stamp) or open(stamp).read() != h.hexdigest():
            subprocess.run(["cargo", "clean", "-q", "--offline", "--profile", profile, "-p", "veb-tree"], cwd=HARNESS, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
            with open(stamp, "w") as f:
                f.write(h.hexdigest())


class Run:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1") or 1)
        self.quick = self.tier != "thorough"
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".cache", f"{prop}-{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.lock = threading.Lock()
        self.stats = {}            # summed counters of the conformance programs
        self.maxes = {}
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.specs = []            # one line per TLC run
        self.jobs = []             # one line per conformance run
        self.violations = []       # (account text)
        self.abandon = {}
        self.assumptions = []
        self.extra = {}
        self.level = "model_checking"
        self.limited = 0           # jobs that ended early at their time budget

    def path(self, name):
        return os.path.join(self.work, name)

    def left(self, total):
        return max(0.0, total - (time.time() - self.t0))

    # ------------------------------------------------------------------ building
    def build(self, features, bins, profile="checked", target=None):
        target = target or BUILD
        cmd = ["cargo", "build", "-q", "--offline", "--profile", profile, "--no-default-features"]
        if features:
            cmd += ["--features", ",".join(features)]
        for b in bins:
            cmd += ["--bin", b]
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", RUSTFLAGS="", CARGO_TERM_COLOR="never")
        env.pop("CARGO_BUILD_RUSTFLAGS", None)
        t = time.time()
        fresh(target, profile, env)
        r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if r.returncode != 0:
            raise ToolError("harness does not build against /repo:\n" + r.stdout[-6000:])
        print(f"[{self.prop}] built {','.join(bins)} ({profile}) in {time.time()-t:.1f} s", flush=True)
        return {b: os.path.join(target, "release" if profile == "release" else profile, b) for b in bins}

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, out=None, env=None, args=(), workers=4, timeout=600, expect_ok=True, tag=None, mem="3g"):
        """Runs TLC; returns (exit code, output).  `out`: file receiving the output instead."""
        tag = tag or f"{module}-{os.path.basename(cfg)}"
        meta = self.path("meta-" + re.sub(r"\W", "_", tag) + f"-{time.time_ns()}")
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss64m", f"-Djava.io.tmpdir={self.work}", "-cp",
               "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
               "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg, *args, module + ".tla"]
        e = dict(os.environ, **(env or {}))
        t = time.time()
        dest = out or self.path("out-" + os.path.basename(meta))
        try:
            with open(dest, "w") as f:
                r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC {tag} did not finish within {timeout} s")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        gen = dist = 0
        tail = subprocess.run(["tail", "-n", "40", dest], capture_output=True, text=True).stdout
        for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", tail):
            gen, dist = int(m[1].replace(",", "")), int(m[2].replace(",", ""))
        if "-simulate" in args:
            for m in re.finditer(r"number of states generated: ([\d,]+)", tail, re.I):
                gen = dist = int(m[1].replace(",", ""))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.specs.append(f"{tag}: {dist} distinct states, {gen} transitions, {time.time()-t:.1f} s, exit {r.returncode}")
        if expect_ok and r.returncode != 0:
            bad = subprocess.run(["grep", "-v", '^"[ESI] ', dest], capture_output=True, text=True).stdout
            raise ToolError(f"TLC {tag} failed (exit {r.returncode}):\n{bad[-4000:]}")
        return r.returncode, dest

    def prove(self, module, timeout=3000, threads=4):
        """Checks every proof of a module with tlapm, from scratch."""
        d = self.path("proof-" + module)
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        t = time.time()
        try:
            r = subprocess.run(["tlapm", "--threads", str(threads), "--stretch", "10", module + ".tla"], cwd=d, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"tlapm {module} did not finish within {timeout} s")
        out = r.stdout + r.stderr
        shutil.rmtree(d, ignore_errors=True)
        m = re.search(r"All (\d+) obligations? proved", out)
        if r.returncode != 0 or not m:
            raise ToolError(f"tlapm {module} failed:\n{out[-3000:]}")
        with self.lock:
            self.specs.append(f"{module}: all {m[1]} proof obligations discharged, {time.time()-t:.1f} s")
            self.extra["proof_obligations_of_the_design"] = self.extra.get("proof_obligations_of_the_design", 0) + int(m[1])

    def design(self, module, cfg, **kw):
        """A design check: all invariants of cfg hold on the bounded model."""
        return self.tlc(module, cfg, **kw)

    # ------------------------------------------------------------------ programs
    def program(self, cmd, name, timeout=600, mem_gb=4, env=None):
        """Runs a conformance program.  Violations are collected; a crash is re-run with a journal
        so that the history that led to it is known."""
        res = self._run(cmd, timeout, mem_gb, env)
        self._digest(name, res, cmd, timeout, mem_gb, env)
        return res

    def _run(self, cmd, timeout, mem_gb, env):
        def limits():
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        p = subprocess.Popen(cmd, cwd=self.work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                             preexec_fn=limits, env=dict(os.environ, RUST_BACKTRACE="0", **(env or {})))
        try:
            out, err = p.communicate(timeout=timeout)
            return p.returncode, out, err
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            return "timeout", out, err

    def _digest(self, name, res, cmd, timeout, mem_gb, env):
        rc, out, err = res
        accounts = re.findall(r"@@VIOLATION-BEGIN\n(.*?)@@VIOLATION-END", out, re.S)
        if "@@HARNESS-ERROR" in out:
            raise ToolError(f"{name}: harness error\n{out[-3000:]}{err[-2000:]}")
        if rc == 1 and accounts:
            with self.lock:
                self.violations.append(accounts[0] + "command " + " ".join(cmd) + "\n")
            return
        if rc == "timeout":
            raise ToolError(f"{name}: no result within {timeout} s\n{out[-1500:]}{err[-1500:]}")
        if isinstance(rc, int) and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
            # the code under test took the process down (stack overflow, runaway allocation, abort)
            j = self.path(f"journal-{re.sub(r'[^A-Za-z0-9]', '_', name)}-{time.time_ns()}")
            rc2, out2, err2 = self._run(cmd + ["--journal", j], timeout, mem_gb, env)
            text = ""
            if os.path.exists(j):
                with open(j, errors="replace") as f:
                    text = f.read()
                k = text.rfind("\nwalk ")
                text = text[max(k + 1, len(text) - 200000):]
            if rc2 == rc:
                with self.lock:
                    self.violations.append(f"property {self.prop}\nconfig {name}\nFAIL the process was killed by signal {-rc} "
                                           f"({signal.Signals(-rc).name}): {err.strip()[-400:]}\ncommand {' '.join(cmd)}\nJOURNAL\n{text}\n")
                return
            raise ToolError(f"{name}: died with signal {-rc}, then with {rc2}: {err[-1500:]}")
        if rc != 0:
            raise ToolError(f"{name}: exit {rc}\n{out[-2500:]}\n{err[-2500:]}")
        with self.lock:
            for line in out.splitlines():
                if line.startswith("@@STATS "):
                    self.jobs.append(line[8:])
                    for kv in line[8:].split():
                        k, _, v = kv.partition("=")
                        if re.fullmatch(r"-?\d+", v):
                            if k.startswith("max_"):
                                self.maxes[k] = max(self.maxes.get(k, 0), int(v))
                            else:
                                self.stats[k] = self.stats.get(k, 0) + int(v)
                elif line.startswith("@@SAMPLE "):
                    self.samples.append(line[9:])
                elif line.startswith("@@ABANDON "):
                    n, _, w = line[10:].partition(" ")
                    self.abandon[w] = self.abandon.get(w, 0) + int(n)
                elif line.startswith("@@LIMITED"):
                    self.limited += 1

    def parallel(self, thunks, workers=None):
        """Runs thunks; the first exception is raised after all have ended.  Once a violation is
        known the remaining thunks are skipped."""
        err = []
        def go(t):
            if self.violations:
                return
            try:
                t()
            except Exception as e:          # noqa: collected
                err.append(e)
        with cf.ThreadPoolExecutor(workers or CORES) as ex:
            list(ex.map(go, thunks))
        if err and not self.violations:
            raise err[0]
        for e in err:
            print(f"[{self.prop}] besides the violation: {str(e)[:2000]}", flush=True)

    def violation(self, text):
        with self.lock:
            self.violations.append(text)

    # ------------------------------------------------------------------ verdict
    def known(self):
        p = os.path.join(VERIF, "known_findings.txt")
        out = []
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", l.strip())
                if m and m[1] == self.prop:
                    out.append((re.compile(m[2]), m[3]))
        return out

    def finish(self):
        shown = []
        for rx, text in self.known():
            print(f"KNOWN-FINDING: property={self.prop} {text}")
        for v in self.violations:
            if not any(rx.search(v) for rx, _ in self.known()):
                shown.append(v)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces + self.stats.get("walks", 0),
               "samples": self.samples[:12] or self.specs[:3],
               "conformance": {**self.stats, **self.maxes}, "specification_runs": self.specs}
        if self.abandon:
            cov["walks_ended_without_verdict"] = dict(sorted(self.abandon.items(), key=lambda x: -x[1])[:10])
        if self.limited:
            cov["programs_stopped_at_time_budget"] = self.limited
        cov.update(self.extra)
        if self.level == "exploration":
            cov.setdefault("evaluations", self.stats.get("evaluations", self.stats.get("calls", 0)))
        ev = {"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(shown)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        shutil.rmtree(self.work, ignore_errors=True)
        if shown:
            os.makedirs(REPLAYS, exist_ok=True)
            for i, v in enumerate(shown[:5]):
                path = os.path.join(REPLAYS, f"{self.prop}-{os.getpid()}-{i}.txt")
                with open(path, "w") as f:
                    f.write(v)
                fail = [l for l in v.splitlines() if l.startswith("FAIL ")]
                cfg = [l for l in v.splitlines() if l.startswith("config ")]
                print(f"[{self.prop}] {cfg[0] if cfg else ''}: {fail[0][5:] if fail else v[:300]}")
                print(f"VIOLATION property={self.prop} replay={path}", flush=True)
            return 1
        print(f"[{self.prop}] held: {cov['states']} specification states, {cov['transitions']} transitions, "
              f"{cov['traces_validated_against_impl']} runs of the code compared, {time.time()-self.t0:.1f} s", flush=True)
        return 0


def main(prop, fn):
    run = Run(prop)
    try:
        fn(run)
        code = run.finish()
    except ToolError as e:
        print(f"[{prop}] the check itself failed: {e}", flush=True)
        code = 2 if not run.violations else run.finish()
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2 if not run.violations else run.finish()
    finally:
        shutil.rmtree(run.work, ignore_errors=True)
    sys.exit(code)
