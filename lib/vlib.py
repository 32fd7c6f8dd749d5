"""Shared machinery: run TLC, collect verdicts, write evidence, report violations.

A check module (checks/Cxx.py) defines ``main(ck)`` and uses

* ``ck.tlc(Module, cfg, ...)``   run TLC on spec/Module.tla in a scratch directory;
  returns the JSON records the specification printed (lines ``@@{...}``) and the statistics.
* ``ck.pool(jobs)``             run replay jobs (functions in the check module) in worker processes;
  every job yields verdicts ``(key, ok, clause, detail)``.
* ``ck.verdict(key, ok, clause, detail)``  record one verdict.

Outcome: exit 0, or exit 1 with ``VIOLATION property=<id> replay=<path>``.
"""
import contextlib, json, math, os, random, re, shutil, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ENV = dict(JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TF_CPP_MIN_LOG_LEVEL="3")
for k in ("PYTHONPATH", "XLA_FLAGS"):
    os.environ.pop(k, None)
os.environ.update(ENV)
DEADLINE = float(os.environ.get("VERIF_DEADLINE", 830))


class TLCError(Exception):
    pass


class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        self.records = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                self.records.append(json.loads(json.loads(line)[2:]))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        if not m:   # simulation mode
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            self.generated = self.distinct = int(m[-1].replace(",", "")) if m else 0
        self.violated = re.findall(r"Invariant (\S+) is violated|property (\S+) is violated|Temporal properties were violated", out)
        # 2 = safety, 13 = liveness, 12 = assumption/postcondition ...
        self.ok = rc == 0


def run_tlc(module, cfg, files=None, args=(), workers=4, heap="3g", timeout=600, depth_first=False):
    """Run TLC on spec/<module>.tla with configuration text `cfg` in a scratch directory."""
    d = tempfile.mkdtemp(prefix="vtlc_")
    try:
        sd = os.path.join(VERIF, "spec")
        for f in os.listdir(sd):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(sd, f), d)
        with open(os.path.join(d, "MC.cfg"), "w") as f:
            f.write(cfg)
        for name, content in (files or {}).items():
            with open(os.path.join(d, name), "w") as f:
                f.write(content if isinstance(content, str) else json.dumps(content))
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", JAR]
        if depth_first:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
                "-config", "MC.cfg", *map(str, args), module + ".tla"]
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return TLCResult(p.stdout, p.returncode)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def mk_cfg(constants=None, spec=None, init="Init", next_="Next", invariants=(), properties=(), postcondition=None,
           constraint=None, deadlock=False, view=None, extra=""):
    L = []
    if spec:
        L.append("SPECIFICATION " + spec)
    else:
        L += ["INIT " + init, "NEXT " + next_]
    for k, v in (constants or {}).items():
        L.append(f"CONSTANT {k} = {v}")
    for i in invariants:
        L.append("INVARIANT " + i)
    for i in properties:
        L.append("PROPERTY " + i)
    if postcondition:
        L.append("POSTCONDITION " + postcondition)
    if constraint:
        L.append("CONSTRAINT " + constraint)
    if view:
        L.append("VIEW " + view)
    L.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    return "\n".join(L) + "\n" + extra + "\n"


def _worker_main():
    """Entry point of a worker process: argv = check file, function, JSON args file, out file."""
    _, chk, fn, fin, fout = sys.argv[1:6]
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    import importlib.util
    spec = importlib.util.spec_from_file_location("chk", chk)
    m = importlib.util.module_from_spec(spec)
    verd = []
    def emit(key, ok, clause, detail=None):
        verd.append([key, bool(ok), clause, detail])
    arg = json.load(open(fin))
    try:
        spec.loader.exec_module(m)
        r = getattr(m, fn)(emit, arg)
    except BaseException as e:
        r = None
        verd.append([f"{fn}", False, "unexpected-exception", traceback.format_exc()[-4000:]])
    with open(fout, "w") as f:
        json.dump(dict(v=verd, r=r), f, default=_js)


def _js(o):
    try:
        return float(o)
    except Exception:
        pass
    try:
        return o.tolist()
    except Exception:
        return repr(o)


_tl = threading.local()


class Rng:
    """random.Random whose draws do not depend on the schedule: each task of Check.threads has its own stream."""
    def __init__(self, seed):
        self._seed = seed
    def __getattr__(self, name):
        d = _tl.__dict__.setdefault("rng", {}); k = id(self)
        if k not in d:
            d[k] = random.Random(f"{self._seed}:{getattr(_tl, 'path', ())}" if getattr(_tl, "path", ()) else self._seed)
        return getattr(d[k], name)


class Check:
    def __init__(self, pid, level="model_checking", tier=None):
        self.pid, self.level = pid, level
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.states = self.trans = self.traces = 0
        self.samples, self.assumptions, self.bad, self.knownhits = [], [], [], []
        self.cov = {}
        self.nverd = 0
        self.keys = set()
        self.clauses = {}
        kf = json.load(open(os.path.join(VERIF, "known_findings.json"))) if os.path.exists(os.path.join(VERIF, "known_findings.json")) else {}
        self.known = {e["key"]: e for e in kf.get("findings", []) if e["property"] == pid}
        self.file = os.path.join(VERIF, "checks", pid + ".py")
        try:
            os.remove(os.path.join(VERIF, "out", f"violation_{pid}.json"))
        except OSError:
            pass
        self.lock = threading.Lock()
        self.cache = tempfile.mkdtemp(prefix="vxla_")      # compilation cache shared by this run's workers only
        self.timer = threading.Timer(DEADLINE if self.tier == "quick" else 6 * 3600, self._deadline)
        self.timer.daemon = True
        self.timer.start()

    thorough = property(lambda s: s.tier == "thorough")

    # ---- specification side
    def tlc(self, module, constants=None, must_hold=True, files=None, args=(), workers=4, heap="3g", timeout=700, depth_first=False, **kw):
        """Model-check a module of the specification.  With must_hold, an error of TLC raises (machinery)."""
        cfg = mk_cfg(constants, **kw)
        t = time.time()
        r = run_tlc(module, cfg, files, args, workers, heap, timeout, depth_first)
        r.records.sort(key=lambda x: json.dumps(x, sort_keys=True))          # TLC's workers print in any order
        with self.lock:
            self.states += r.distinct
            self.trans += r.generated
            self.cov.setdefault("tlc_runs", []).append(dict(module=module, distinct=r.distinct, generated=r.generated,
                                                         records=len(r.records), ok=r.ok, wall_s=round(time.time() - t, 1)))
        if must_hold and not r.ok:
            raise TLCError(f"TLC on {module} rc={r.rc}:\n" + "\n".join(l for l in r.out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting", '"@@')))[-3500:])
        return r

    # ---- implementation side
    def verdict(self, key, ok, clause="", detail=None):
        with self.lock:
            self.nverd += 1
            self.keys.add(key)
            c = self.clauses.setdefault(clause or key, [0, 0])
            c[0] += 1
            if ok:
                return
            c[1] += 1
            if key in self.known:
                self.knownhits.append(key)
                return
            self.bad.append(dict(key=key, clause=clause, detail=detail))

    @contextlib.contextmanager
    def case(self, key, clause="no-exception"):
        try:
            yield
        except Exception:
            self.verdict(key, False, clause, traceback.format_exc()[-3000:])

    def pool(self, jobs, nproc=8, timeout=780):
        """jobs: list of (function name in the check module, json argument).  Runs them in worker processes.
        Returns the list of return values in order."""
        if os.environ.get("VERIF_HASH"):
            import hashlib
            print(self.prop if hasattr(self, "prop") else self.file, [(f, hashlib.md5(json.dumps(a, sort_keys=True, default=_js).encode()).hexdigest()[:6]) for f, a in jobs], flush=True); os._exit(0)
        res = [None] * len(jobs)
        sem = threading.Semaphore(nproc)
        d = tempfile.mkdtemp(prefix="vjob_")
        env = dict(os.environ, **({} if os.environ.get("VERIF_NOCACHE") else dict(JAX_COMPILATION_CACHE_DIR=self.cache, JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0", JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="-1")))
        def one(i, fn, arg):
            with sem:
                fin, fout = os.path.join(d, f"i{i}"), os.path.join(d, f"o{i}")
                json.dump(arg, open(fin, "w"), default=_js)
                work = os.path.join(d, f"w{i}"); os.mkdir(work)
                p = subprocess.Popen([PY, "-c", "import sys;sys.path.insert(0,%r);import vlib;vlib._worker_main()" % os.path.join(VERIF, "lib"),
                                      "w", self.file, fn, fin, fout], cwd=work, env=env,
                                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                try:
                    out, _ = p.communicate(timeout=timeout)
                except subprocess.TimeoutExpired:
                    p.kill(); out, _ = p.communicate()
                    self.verdict(f"{fn}#{i}", False, "terminates", "worker timed out\n" + out[-2000:])
                    return
                if os.environ.get("VERIF_DEBUG"):
                    sys.stderr.write(out[-3000:])
                if not os.path.exists(fout):
                    self.verdict(f"{fn}#{i}", False, "worker-survives", f"rc={p.returncode}\n" + out[-3000:])
                    return
                r = json.load(open(fout))
                for k, ok, cl, det in r["v"]:
                    self.verdict(k, ok, cl, det)
                res[i] = r["r"]
        th = [threading.Thread(target=one, args=(i, *j)) for i, j in enumerate(jobs)]
        [t.start() for t in th]
        [t.join() for t in th]
        shutil.rmtree(d, ignore_errors=True)
        return res

    def rng(self, seed):
        return Rng(seed)

    def threads(self, items, n=8):
        """Run callables (or (f, *args)) in n threads; an exception becomes a failed verdict."""
        it = iter(list(enumerate(items))); lk = threading.Lock(); path = getattr(_tl, "path", ()); _tl.calls = getattr(_tl, "calls", 0) + 1; call = _tl.calls
        def w():
            while True:
                with lk:
                    k, x = next(it, (0, None))
                if x is None:
                    return
                _tl.path, _tl.calls, _tl.rng = path + (call, k), 0, {}
                try:
                    x() if callable(x) else x[0](*x[1:])
                except Exception:
                    self.verdict("check", False, "unexpected-exception", traceback.format_exc()[-4000:])
        th = [threading.Thread(target=w) for _ in range(n)]
        [t.start() for t in th]
        [t.join() for t in th]

    # ---- outcome
    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def _deadline(self):
        self.bad.append(dict(key="deadline", clause="terminates", detail="the check did not finish in time"))
        self.finish(hard=True)

    def finish(self, hard=False):
        self.timer.cancel()
        shutil.rmtree(self.cache, ignore_errors=True)
        cov = dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["-"], verdicts=self.nverd, distinct_cases=len(self.keys),
                   clauses={k: dict(checked=v[0], failed=v[1]) for k, v in sorted(self.clauses.items())[:200]}, **self.cov)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.bad))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1, default=_js)
        for k in sorted(set(self.knownhits)):
            print(f"KNOWN-FINDING: property={self.pid} {self.known[k]['what']} [{k}]")
        rc = 0
        if self.bad:
            os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
            rp = os.path.join(VERIF, "out", f"violation_{self.pid}.json")
            json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, violations=self.bad[:200]), open(rp, "w"), indent=1, default=_js)
            for b in self.bad[:4]:
                print(f"  failed [{b['key']}] clause={b['clause']}: {str(b['detail'])[-500:]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            rc = 1
        else:
            print(f"OK property={self.pid} states={self.states} traces={self.traces} verdicts={self.nverd} cases={len(self.keys)} wall={time.time()-self.t0:.1f}s")
        sys.stdout.flush()
        if hard:
            os._exit(rc)
        return rc


def run_check(pid, tier=None):
    import importlib.util
    ck = Check(pid, tier=tier)
    try:
        spec = importlib.util.spec_from_file_location("chk", ck.file)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        m.main(ck)
    except Exception:
        ck.verdict("check", False, "unexpected-exception", traceback.format_exc()[-4000:])
    rc = ck.finish()
    sys.stdout.flush()
    os._exit(rc)


def close(a, b, tol=1e-8, atol=None):
    """|a-b| <= tol*(1+max|b|) for arrays; False on shape mismatch or non-finite."""
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not np.all(np.isfinite(a)):
        return False
    return bool(np.max(np.abs(a - b)) <= (atol if atol is not None else tol * (1 + np.max(np.abs(b)))))


def err(a, b):
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return f"shape {a.shape} vs {b.shape}"
    if a.size == 0:
        return "empty"
    i = int(np.nanargmax(np.where(np.isfinite(a), np.abs(a - b), np.inf)))
    return f"max err at flat index {i}: got {a.ravel()[i]!r}, expected {b.ravel()[i]!r}"
