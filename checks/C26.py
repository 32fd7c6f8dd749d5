"""C26 launches and imports.  Specs: Launch (every schedule of a cluster launch; recorded runs of the real launcher with real JAX processes are checked to be behaviours), Boot (what an import does with
every combination of settings, then the switches).  ssh and docker are stand-ins on PATH inside a scratch directory; the processes talk over the loopback device only."""
import itertools, json, os, random, shutil, socket, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

SCRIPT = r'''
import os, sys, json, time
from feax import distributed as d
import jax, jax.numpy as jnp, numpy as np
r = int(os.environ["JAX_PROCESS_ID"]); ev = []
spec = json.load(open(os.path.join(os.environ["VLOG"], "spec.json")))
def log(e, **k): ev.append((time.monotonic_ns(), dict(e=e, r=r, **k)))
end = os.environ["JAX_COORD_ADDR"] + ":" + os.environ.get("JAX_COORD_PORT", "1234")
log("up", rank=r, n=int(os.environ["JAX_NUM_PROCESSES"]), end="cfg" if end == spec["end"] else end, args="cfg" if sys.argv[1:] == spec["args"] else repr(sys.argv))
time.sleep(spec["delay"][r] if r < len(spec["delay"]) else 0)
ok = d.initialize()
log("join", n=jax.process_count() if ok and jax.process_index() == r else -1, first=int(d.is_coordinator()))
for i in range(1, spec["rounds"] + 1):
    x = dict(a=jnp.full((2, i), 100. * r + i), b=(np.int32(100 * r + i), jnp.asarray([[100. * r + i]])))
    log("enter", i=i); g = d.gather(x); n = spec["n"]; v = [int(t) for t in np.asarray(g["b"][0]).ravel()]
    good = g["a"].shape == (n, 2, i) and g["b"][0].shape == (n,) and g["b"][1].shape == (n, 1, 1) and g["a"].dtype == jnp.float64 and all((np.asarray(g["a"][q]) == v[q]).all() and float(g["b"][1][q, 0, 0]) == v[q] for q in range(n))
    log("leave", i=i, v=v if good else repr(g))
d.finalize(); d.finalize()
still = jax.distributed.is_initialized()
if r: time.sleep(spec["linger"][r])
log("end") if not still else log("not shut down")
f = os.path.join(os.environ["VLOG"], "ev%d_%d" % (r, os.getpid())); json.dump(ev, open(f, "w")); os.rename(f, f + ".json")
sys.stdout.flush(); sys.exit(spec["code"] if r == 0 else 0)
'''
SSH = r'''#!PY
import json, os, subprocess, sys, time
a = sys.argv[1:]; json.dump(a, open(os.path.join(os.environ["VLOG"], "ssh_%d.json" % os.getpid()), "w"))
env = {k: v for k, v in os.environ.items() if not k.startswith("JAX_")}
sys.exit(subprocess.run(["sh", "-c", a[-1]], env=env).returncode)
'''
DOCKER = r'''#!PY
import json, os, subprocess, sys
a = sys.argv[1:]; assert a[0] == "exec", a; i = 1; env = dict(os.environ)
while a[i].startswith("-"):
    if a[i] in ("-e", "--env"): i += 1; k, v = a[i].split("=", 1); env[k] = v
    elif a[i].startswith("--env="): k, v = a[i][6:].split("=", 1); env[k] = v
    elif a[i] in ("-w", "--workdir", "-u", "--user"): i += 1
    i += 1
json.dump(dict(container=a[i], ppid=os.getppid()), open(os.path.join(os.environ["VLOG"], "docker_%d.json" % os.getpid()), "w"))
sys.exit(subprocess.run(a[i + 1:], env=env).returncode)
'''


def free_port():
    s = socket.socket(socket.AF_INET6 if socket.has_ipv6 else socket.AF_INET)
    try: s.bind(("", 0)); return s.getsockname()[1]
    finally: s.close()


def is_free(p):
    for fam, a in ((socket.AF_INET6, "::"), (socket.AF_INET, "0.0.0.0")):
        try:
            s = socket.socket(fam)
        except OSError: continue
        try: s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); s.bind((a, p))
        except OSError as e:
            if e.errno == 98: return False
        finally: s.close()
    return True


def main(ck):
    rng = ck.rng(ck.seed * 31 + 26); T = ck.thorough
    runs = [dict(nodes=0, args=[], port="free", rounds=1, code=0, cfg="default"),
            dict(nodes=1, args=["--n", "5", "-c", "x y"], port="free", rounds=2, code=0, cfg="named"),
            dict(nodes=2, args=["it's", "$HOME", "", "a;b", "\"q\"", "*", "--flag=1", "ü"], port="free", rounds=3, code=3, cfg="named"),
            dict(nodes=2, args=["plain"], port=None, rounds=1, code=0, cfg="named")]
    if T: runs += [dict(nodes=rng.randint(1, 5), args=[rng.choice(["a b", "--x", "$(y)", "\\", "`z`", "&", "#", "~"]) for _ in range(rng.randint(0, 4))], port=rng.choice(["free", None]), rounds=rng.randint(1, 4), code=rng.randint(0, 5), cfg=rng.choice(["default", "named"])) for _ in range(10)]
    for i, s in enumerate(runs):
        n = s["nodes"] + 1; s.update(id=i, delay=[rng.choice([0, .3, .8]) for _ in range(n)], linger=[0.] + [1.2 * ((q + i) % 2) for q in range(n - 1)], same=int(i % 4 == 3), keys=[rng.choice(["", "/k/id one"]) for _ in range(n)], cont=[None, "box1", None, "box3", None, "box5"][:n] if i % 2 == 0 else [None] + ["box%d" % q if rng.random() < .7 else None for q in range(1, n)])
    fl = lambda *x: [dict(name=n, vals=v) for n, v in x]; dev, fm = ("--xla_force_host_platform_device_count", ["2"]), ("--xla_cpu_enable_fast_math", ["false"])
    F = [fl(), fl(dev), fl(("passes", ["algsimp", "dce"])), fl(dev, ("passes", ["dce"]), fm), fl(("passes", ["constant_folding", "dce"]), fm)]; U = ["unset", "unset"]; tri = [U, ["1", "t"], ["0", "f"]]
    cfgs = [(dict(x64=tri + [[" FALSE ", "f"], ["no", "f"], ["off", "f"], ["yes", "t"], ["true", "t"]], pre=[U], xpre=[U], fold=[U], flags=F[:1]), 2),
            (dict(x64=[U], pre=tri + [["On", "t"]], xpre=[U, ["true", "t"], ["false", "f"]], fold=[U], flags=F[:1]), 2),
            (dict(x64=[U], pre=[U], xpre=[U], fold=tri + [["TRUE", "t"]], flags=F), 1)]
    if T: cfgs.append((dict(x64=tri, pre=tri, xpre=[U, ["true", "t"], ["0", "f"]], fold=tri, flags=F), 1))
    B = []
    ck.threads([lambda c=c, m=m: B.append(ck.tlc("Boot", dict(CfgFile='"c.json"', MaxTog=m, Emit="TRUE"), files={"c.json": c}, spec="Spec", invariants=["DoubleByDefault", "ExplicitWins", "NothingLost", "NothingElse", "OncePass"], workers=1)) for c, m in cfgs]
               + [lambda n=n, r=r: ck.tlc("Launch", dict(Nodes=n, Rounds=r, Code=0, TrFile='""'), spec="Spec", invariants=["OneRankEach", "RanksCover", "SameRendezvous", "Agree", "RankOrder", "Lockstep", "NoOrphan"], properties=["Finishes"], workers=2) for n, r in [(0, 2), (1, 3), (2, 2)] + ([(3, 2)] if T else [])], 4)
    by = {}
    for b in B:
        for x in b.records: by.setdefault(json.dumps(x["env"], sort_keys=True), {})[json.dumps(x["log"])] = x
    boots = []
    for e in sorted(by):                       # one process per environment; each replays several toggle histories
        L = [by[e][k] for k in sorted(by[e])]; boots.append(dict(env=L[0]["env"], flags=L[0]["flags"], logs=[x["log"] for x in L]))
    ck.traces += sum(len(b["logs"]) for b in boots)
    res = ck.pool([("boot", dict(items=boots[i::6])) for i in range(6)] + [("launch", s) for s in runs if s["port"]] + [("calls", dict(seed=ck.seed))], nproc=8)
    res += ck.pool([("launch", s) for s in runs if not s["port"]], nproc=1)
    tr = [x for x in res if isinstance(x, dict) and "trace" in x]
    def one(x):
        r = ck.tlc("Launch", dict(Nodes=x["nodes"], Rounds=x["rounds"], Code=x["code"], TrFile='"t.json"'), files={"t.json": x["trace"]}, must_hold=False, spec="Spec", invariants=["NotAccepted"], workers=1)
        if not r.ok and "NotAccepted is violated" not in r.out: raise RuntimeError(r.out[-2000:])
        ck.verdict(f"run:{x['id']}", not r.ok, "the recorded launch is a behaviour of the specification", x["trace"]); ck.traces += 1
    ck.threads([lambda x=x: one(x) for x in tr], 4); ck.sample(dict(runs=len(tr), events=sum(len(x["trace"]) for x in tr), imports=len(boots)))
    ck.assumptions += ["ssh and docker are stand-ins that run the command they are given", "the default port is only used when nothing else listens on it"]


def boot(emit, arg):
    """Import in a fresh interpreter under the scenario's environment; replay toggles; compare with Boot."""
    prog = r'''
import os, sys, json
import feax, jax, jax.numpy as jnp
import numpy as np
logs = json.load(sys.stdin); out = []
def see():
    return dict(x64="t" if feax.x64_enabled() else "f", pre="t" if feax.preallocate_enabled() else "f", arr=str(jnp.asarray([1.5]).dtype), cpre=os.environ.get("XLA_PYTHON_CLIENT_PREALLOCATE"))
first = see()
for L in logs:
    o = [first]
    feax.enable_x64(L[0]["x64"] == "t"); feax.enable_preallocate(L[0]["pre"] == "t")
    for s in L[1:]:
        (feax.enable_x64 if s["op"][0] == "x64" else feax.enable_preallocate)(s["op"][1] == "t"); o.append(see())
    out.append(o)
print("@@" + json.dumps(dict(out=out, flags=os.environ.get("XLA_FLAGS", ""), dev=jax.device_count())))
'''
    def render(fs): return " ".join(("--xla_disable_hlo_passes" if f["name"] == "passes" else f["name"]) + "=" + ",".join(f["vals"]) for f in fs)
    def parse(s): return sorted((t.split("=", 1)[0], tuple(sorted(t.split("=", 1)[1].split(",")))) for t in s.split())
    import feax
    root = os.path.dirname(os.path.dirname(os.path.abspath(feax.__file__)))
    for x in arg["items"]:
        e = {k: v for k, v in os.environ.items() if k not in ("FEAX_X64", "FEAX_PREALLOCATE", "FEAX_CONSTANT_FOLDING", "XLA_FLAGS", "XLA_PYTHON_CLIENT_PREALLOCATE", "JAX_ENABLE_X64")}
        for k, n in (("x64", "FEAX_X64"), ("pre", "FEAX_PREALLOCATE"), ("xpre", "XLA_PYTHON_CLIENT_PREALLOCATE"), ("fold", "FEAX_CONSTANT_FOLDING")):
            if x["env"][k][1] != "unset": e[n] = x["env"][k][0]
        e["PYTHONPATH"] = root + os.pathsep + os.environ.get("PYTHONPATH", "")
        if x["env"]["flags"]: e["XLA_FLAGS"] = render(x["env"]["flags"])
        key = "boot:" + ",".join(f"{n}={e[n]!r}" for n in ("FEAX_X64", "FEAX_PREALLOCATE", "XLA_PYTHON_CLIENT_PREALLOCATE", "FEAX_CONSTANT_FOLDING", "XLA_FLAGS") if n in e)
        p = subprocess.run([sys.executable, "-c", prog], input=json.dumps(x["logs"]), env=e, capture_output=True, text=True, timeout=300)
        o = next((json.loads(l[2:]) for l in p.stdout.splitlines() if l.startswith("@@")), None)
        emit(key, o is not None, "the package imports", p.stderr[-1500:])
        if o is None: continue
        emit(key, parse(o["flags"]) == parse(render(x["flags"])), "compiler flags are kept, with the one pass added", [o["flags"], render(x["flags"])])
        emit(key, o["dev"] == (2 if "device_count" in e.get("XLA_FLAGS", "") else 1), "the user's compiler flags still act", o["dev"])
        for L, S in zip(x["logs"], o["out"]):
            ok = all(s["x64"] == l["x64"] and s["pre"] == l["pre"] and s["arr"] == ("float64" if l["x64"] == "t" else "float32") and (s["cpre"] or "").lower() in (("true", "1") if l["pre"] == "t" else ("false", "0")) for l, s in zip(L, S))
            emit(key, ok and len(L) == len(S), "precision and preallocation follow the settings and switches", [L, S])


def launch(emit, s):
    """The real launcher, with stand-ins for ssh and docker, real processes over the loopback."""
    n = s["nodes"] + 1; default = s["port"] is None; key = f"launch:{s['id']}:nodes={s['nodes']},args={s['args']},port={'default' if default else 'given'}"
    if default:
        for _ in range(60):
            if is_free(1234): break
            time.sleep(1)
        else: return None
    for attempt in range(3):
        D = tempfile.mkdtemp(prefix="vlaunch_")
        try:
            port = 1234 if default else free_port(); B = os.path.join(D, "bin"); os.mkdir(B); W = os.path.join(D, "work dir"); os.mkdir(W); VL = os.path.join(D, "log"); os.mkdir(VL)
            for name, src in (("ssh", SSH), ("docker", DOCKER)):
                with open(os.path.join(B, name), "w") as f: f.write(src.replace("PY", sys.executable, 1))
                os.chmod(os.path.join(B, name), 0o755)
            with open(os.path.join(B, "python3"), "w") as f: f.write(f'#!/bin/sh\nexec "{sys.executable}" "$@"\n')
            os.chmod(os.path.join(B, "python3"), 0o755)
            addr = "127.0.0.1"; nodes = []
            for q in range(1, n):
                y = dict(host=f"10.0.0.{1 if s['same'] else q}")
                if s["keys"][q]: y["ssh_key"] = s["keys"][q]
                if s["cont"][q]: y["container"] = s["cont"][q]
                nodes.append(y)
            cfg = dict(coordinator=addr)
            if nodes or s["id"] % 2: cfg["nodes"] = nodes
            if not default: cfg["port"] = port
            import yaml
            cp = os.path.join(W, "distributed.yml" if s["cfg"] == "default" else "my cluster.yml"); yaml.safe_dump(cfg, open(cp, "w"))
            with open(os.path.join(W, "user script.py"), "w") as f: f.write(SCRIPT)
            json.dump(dict(end=f"{addr}:{port}", args=s["args"], n=n, rounds=s["rounds"], code=s["code"], delay=s["delay"], linger=s["linger"]), open(os.path.join(VL, "spec.json"), "w"))
            import feax
            root = os.path.dirname(os.path.dirname(os.path.abspath(feax.__file__)))
            e = {k: v for k, v in os.environ.items() if not k.startswith("JAX_C") and k not in ("JAX_NUM_PROCESSES", "JAX_PROCESS_ID")}; e.update(PATH=B + os.pathsep + os.environ["PATH"], VLOG=VL, PYTHONPATH=root + os.pathsep + os.environ.get("PYTHONPATH", ""))
            cmd = [sys.executable, "-m", "feax.distributed"] + ([] if s["cfg"] == "default" else ["--config", cp]) + ["user script.py"] + s["args"]
            with open(os.path.join(D, "out"), "w") as fo:       # files, not pipes: only the launcher's own end is waited for
                p = subprocess.Popen(cmd, cwd=W, env=e, stdout=fo, stderr=fo, stdin=subprocess.DEVNULL, start_new_session=True)
                try: p.wait(150)
                except subprocess.TimeoutExpired: os.killpg(p.pid, 9); p.wait(); p = None
            t = time.monotonic_ns(); out = open(os.path.join(D, "out"), errors="replace").read()[-1500:]
            for _ in range(30):                                # a process that outlives the launcher still gets to report
                if p is None or sum(f.startswith("ev") and f.endswith("json") for f in os.listdir(VL)) >= n: break
                time.sleep(.1)
            if p is not None and ("address already in use" in out.lower() or "Failed to start" in out) and not default and attempt < 2: continue
            ev = []; sshs = []; docks = []
            for f in sorted(os.listdir(VL)):
                if not f.endswith(".json"): continue
                j = json.load(open(os.path.join(VL, f)))
                if f.startswith("ev"): ev += j
                elif f.startswith("ssh"): sshs.append(j)
                elif f.startswith("docker"): docks.append(j)
            emit(key, p is not None, "the launch finishes", out)
            emit(key, sorted(h.split("@")[1] for a in sshs for h in a[:-1] if "@" in h) == sorted(y["host"] for y in nodes), "every node is started exactly once", sshs)
            used = sorted((h.split("@")[1], a[a.index("-i") + 1] if "-i" in a else "") for a in sshs for h in a[:-1] if "@" in h)
            emit(key, used == sorted((y["host"], y.get("ssh_key", "")) for y in nodes), "each node is reached with its own key", used)
            emit(key, sorted(d["container"] for d in docks) == sorted(y.get("container", "feax") for y in nodes), "each node runs in its own container", docks)
            ev = [x for _, x in sorted(ev + [[t, dict(e="out", code=p.returncode if p is not None else -99)]], key=lambda z: z[0])]
            return dict(trace=ev, id=s["id"], nodes=s["nodes"], rounds=s["rounds"], code=s["code"])
        finally: shutil.rmtree(D, ignore_errors=True)


def calls(emit, arg):
    """Rendezvous from the environment (recorded by a stand-in of jax.distributed.initialize); one process alone."""
    import inspect
    import jax, jax.numpy as jnp, numpy as np
    from feax import distributed as d
    names = ("JAX_COORD_ADDR", "JAX_COORD_PORT", "JAX_NUM_PROCESSES", "JAX_PROCESS_ID"); real = jax.distributed.initialize; sig = list(inspect.signature(real).parameters); rec = []
    def stand(*a, **k): rec.append(dict(zip(sig, a), **k))
    jax.distributed.initialize = stand
    try:
        for addr, port, (n, r) in itertools.product([None, "", "10.1.2.3", "head-node"], [None, "1234", "9", "40123"], [(1, 0), (2, 1), (17, 16), (3, 0)]):
            for k in names: os.environ.pop(k, None)
            if addr is not None: os.environ["JAX_COORD_ADDR"] = addr
            if port is not None: os.environ["JAX_COORD_PORT"] = port
            if addr: os.environ["JAX_NUM_PROCESSES"], os.environ["JAX_PROCESS_ID"] = str(n), str(r)
            rec.clear(); got = d.initialize(); key = f"init:{addr}:{port}:{n}:{r}"
            if not addr: emit(key, got is False and not rec, "without a coordinator nothing is initialized", [got, list(rec)])
            else: emit(key, got is True and len(rec) == 1 and rec[0].get("coordinator_address") == f"{addr}:{port or '1234'}" and rec[0].get("num_processes") == n and rec[0].get("process_id") == r, "rank, size and endpoint come from the environment", [got, list(rec)])
    finally:
        jax.distributed.initialize = real
        for k in names: os.environ.pop(k, None)
    d.finalize(); d.finalize()
    emit("alone", d.is_coordinator() is True or d.is_coordinator() == True, "a single process is the coordinator")
    for x in (jnp.arange(6.).reshape(2, 3), np.arange(4), dict(a=jnp.ones(2), b=[jnp.zeros((1, 2)), np.float64(3)])):
        g = d.gather(x); L, M = jax.tree_util.tree_leaves(x), jax.tree_util.tree_leaves(g)
        emit("alone", jax.tree_util.tree_structure(x) == jax.tree_util.tree_structure(g) and all(np.shape(b) == (1,) + np.shape(a) and (np.asarray(b)[0] == np.asarray(a)).all() for a, b in zip(L, M)), "gathering alone adds a leading axis of one", repr(g))
