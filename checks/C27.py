"""C27 profiling.  Spec: Profile (Newton profile, timed calls, nested scopes, operation counts, memory of two devices); every emitted case is replayed through feax.profiler."""
import math, os, random, re, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))


def main(ck):
    T = ck.thorough; rng = ck.rng(ck.seed * 13 + 27); R = {}
    b = dict(newton=(4, 6), timed=(3, 4), nest=(3, 7 if T else 6), jaxpr=(2, 5 if T else 4), memory=(0, 5 if T else 4))
    ck.threads([lambda k=k: R.__setitem__(k, ck.tlc("Profile", dict(Kind=f'"{k}"', B1=b[k][0], B2=b[k][1], Emit="TRUE"), spec="Spec", invariants=["Inv"], workers=2)) for k in b], 5)
    rec = {k: sorted(R[k].records, key=repr) for k in b}; ck.traces += sum(len(v) for v in rec.values())
    cut = lambda L, n: L if len(L) <= n else rng.sample(L, n)
    m = 4 if T else 1
    ck.pool([("newton", dict(recs=rec["newton"], case=c)) for c in range(4)] + [("timed", dict(recs=rec["timed"])), ("nest", dict(recs=cut(rec["nest"], 120 * m))), ("jaxpr", dict(recs=cut(rec["jaxpr"], 250 * m))), ("memory", dict(recs=cut(rec["memory"], 150 * m)))], nproc=8)
    ck.sample({k: len(v) for k, v in rec.items()})
    ck.assumptions += ["wall times are bounded from below by the work inside and from above by the clock outside, never compared with a nominal value"]


def newton(emit, arg):
    import jax, jax.numpy as jnp, numpy as np, feax as fe
    from feax.profiler import profile_solver_py, profile_solver
    c = arg["case"]; dim = 2
    class Bar(fe.problem.Problem):
        def get_energy_density(self):
            def psi(g, k): return .5 * k * jnp.sum(g * g) + (.25 * k * jnp.sum(g * g) ** 2 if c != 3 else 0.)
            return psi
    mesh = fe.mesh.rectangle_mesh(3, 2, 1., 1.)
    view = [fe.MatrixView.FULL, fe.MatrixView.UPPER, fe.MatrixView.FULL, fe.MatrixView.FULL][c]
    prob = Bar(mesh, vec=2, dim=2, ele_type="QUAD4", matrix_view=view)
    bc = fe.DirichletBCConfig([fe.DirichletBCSpec(location=lambda p: jnp.isclose(p[0], 0.), component="all", value=0.), fe.DirichletBCSpec(location=lambda p: jnp.isclose(p[0], 1.), component="x", value=.7)]).create_bc(prob)
    rs = np.random.RandomState(c); tp = fe.TracedParams(volume_vars=(jnp.asarray(1. + rs.randint(0, 4, prob.num_cells)),)); x0 = jnp.asarray(fe.zero_like_initial_guess(prob, bc)); x0 = jnp.where(bc.bc_mask, x0, jnp.asarray(rs.randint(-2, 3, prob.num_total_dofs_all_vars) / 16.))
    opt = [None, fe.DirectSolverOptions(solver="cholmod"), fe.DirectSolverOptions(solver="umfpack"), fe.DirectSolverOptions(solver="spsolve")][c]
    res = fe.create_res_bc_function(prob, bc); J = jax.jacfwd(lambda u: res(u, tp)); xs = [np.asarray(x0)]; nr = []
    for k in range(7):
        r = np.asarray(res(jnp.asarray(xs[-1]), tp)); nr.append(float(np.linalg.norm(r))); xs.append(xs[-1] - np.linalg.solve(np.asarray(J(jnp.asarray(xs[-1]))), r))
    last = max(k for k in range(7) if nr[k] > 1e-6 and all(nr[j + 1] < nr[j] / 3 for j in range(k)))   # a strictly falling sequence well above rounding
    emit(f"newton:{c}", last >= (3 if c != 3 else 0), "machinery: the reference iteration falls", nr)
    for q in arg["recs"]:
        if q["small"] > last + 1 and q["max"] > last + 1: continue
        j = q["small"]; tol = 2 * nr[0] if j == 0 else math.sqrt(nr[j - 1] * max(nr[j], 1e-9)) if j <= last + 1 else 1e-30
        key = f"newton:{c}:below@{j}:max{q['max']}"
        sol, p = profile_solver_py(prob, bc, tp, x0, solver_options=opt, label="L%d" % j, max_iter=q["max"], tol=tol)
        emit(key, len(p.residual_norms) == q["norms"] and len(p.iteration_times) == q["norms"], "one norm and one time per iteration", [p.residual_norms, p.iteration_times])
        emit(key, bool(p.converged) == q["conv"], "converged exactly when a norm fell below the tolerance", [p.converged, p.residual_norms, tol])
        emit(key, np.allclose(p.residual_norms, nr[:q["norms"]], rtol=1e-6, atol=1e-9), "the norms are those of the Newton iterates", [p.residual_norms, nr])
        emit(key, np.allclose(sol, xs[q["steps"]], rtol=1e-7, atol=1e-9), "the solution is the Newton iterate reached", float(np.max(np.abs(np.asarray(sol) - xs[q["steps"]]))))
        emit(key, all(t >= 0 for t in p.iteration_times) and p.wall_time_s >= sum(p.iteration_times) * .999 - 1e-6 and p.label == "L%d" % j, "total time covers the iterations", [p.wall_time_s, p.iteration_times, p.label])
        S = p.summary(); it = re.search(r"Iterations:\s+(\d+)", S); cv = re.search(r"Converged:\s+(\w+)", S); fin = re.search(r"Final res:\s+(\S+)", S); ini = re.search(r"Initial res:\s+(\S+)", S)
        emit(key, it and int(it[1]) == q["norms"] and cv and cv[1] == str(q["conv"]) and (q["norms"] == 0 or (abs(float(fin[1]) - p.residual_norms[-1]) <= 1e-5 * abs(p.residual_norms[-1]) and abs(float(ini[1]) - p.residual_norms[0]) <= 1e-5 * p.residual_norms[0])), "the summary says the same", S)
    solver = fe.create_solver(prob, bc, solver_options=fe.DirectSolverOptions(), newton_options=fe.NewtonOptions(tol=1e-10, rel_tol=1e-12), traced_params=tp); a = np.asarray(solver(tp, x0))
    t = time.perf_counter(); b_, p = profile_solver(solver, tp, x0, label="mine"); t = time.perf_counter() - t
    emit(f"newton:{c}:whole", np.array_equal(a, np.asarray(b_)) and p.label == "mine" and 0 < p.wall_time_s <= t, "a profiled solve returns the solve's result", [p.wall_time_s, t])
    sol, _ = profile_solver_py(prob, bc, tp, x0, solver_options=opt)
    emit(f"newton:{c}:whole", np.allclose(sol, a, rtol=1e-7, atol=1e-8), "the profiled iteration reaches the solver's solution", None)
    calls = []
    def slow(*a, **k): time.sleep(.03); calls.append(a); return jnp.ones(3) * len(a)
    o, p = profile_solver(slow, 1, 2, 3); emit(f"newton:{c}:once", len(calls) == 1 and calls[0] == (1, 2, 3) and p.wall_time_s >= .0299 and float(o[0]) == 3., "the profiled function runs once with its arguments", [calls, p.wall_time_s])


def timed(emit, arg):
    import jax, jax.numpy as jnp, numpy as np, feax as fe
    for q in arg["recs"]:
        for label in (None, "tag"):
            n = [0]
            def work(a, *, b=0):
                n[0] += 1; time.sleep(.004 * n[0]); return jnp.asarray([n[0], a, b])
            t = time.perf_counter(); out, r = fe.time_fn(work, 5, b=7, **({} if label is None else dict(label=label)), n_runs=q["n"], warmup=q["w"]); t = time.perf_counter() - t
            key = f"timed:w{q['w']}:n{q['n']}:{label}"; base = label or "work"
            emit(key, n[0] == q["calls"] and [int(v) for v in np.asarray(out)] == [q["calls"], 5, 7], "warmup and timed calls, the last value returned", [n, np.asarray(out).tolist()])
            emit(key, [x.label for x in r.records] == [f"{base}[{i}]" if q["indexed"] else base for i in q["labels"]], "one labelled record per timed call", [x.label for x in r.records])
            T = [.004 * (q["w"] + i + 1) for i in range(q["n"])]; tot = .004 * sum(range(1, q["calls"] + 1)); W = [x.wall_time_s for x in r.records]
            emit(key, len(W) == len(T) and all(a <= w <= t - (tot - a) + 1e-3 for a, w in zip(T, W)), "each record times its own call only", [T, W, t])
            emit(key, abs(r.total_s - sum(W)) < 1e-12 and all(x.label in r.summary() for x in r.records) and (not W or abs(float(re.search(r"Total\s+(\S+) s", r.summary())[1]) - sum(W)) < 1e-4), "total and summary add the records", r.summary())
    f = jax.jit(lambda A: ((A @ A) / 400. @ A).sum() * jnp.ones(2)); A = jnp.asarray(np.random.RandomState(0).rand(900, 900)); f(A).block_until_ready()
    o, _ = fe.time_fn(f, A, n_runs=2); emit("timed:async", o.is_ready(), "timed work has finished when it is reported")
    o, _ = fe.profile_solver(f, A); emit("timed:async", o.is_ready(), "profiled work has finished when it is reported")
    for blk in ({}, dict(block_until_ready=True)):
        with fe.profile("x", **blk) as t: o = f(A)
        emit("scope:async", o.is_ready(), "the scope closes after the work started inside has finished", t.total_s)
    f = lambda x: jnp.sin(x) @ jnp.ones((30, 30)); x = jnp.ones((40, 30)); raw = fe.get_cost_analysis(f, x); txt = fe.format_cost_analysis(f, x, label="lab"); raw = raw[0] if isinstance(raw, (list, tuple)) else raw
    def val(name):
        m = re.search(name + r":\s+([\d.]+) ([GMK]?)", txt); return None if not m else float(m[1]) * dict(G=1e9, M=1e6, K=1e3).get(m[2], 1)
    emit("cost", "lab" in txt and abs(val("FLOPs") / raw["flops"] - 1) < .01 and abs(val("Memory accessed") / raw["bytes accessed"] - 1) < .01 and abs(val("Arith. intensity") / (raw["flops"] / raw["bytes accessed"]) - 1) < .01, "the cost summary scales the compiler's numbers", txt)
    emit("cost", raw["flops"] >= 2 * 40 * 30 * 30 - 40 * 30 and "HloModule" in fe.get_hlo(f, x), "the compiler's own numbers are returned", raw["flops"])


def nest(emit, arg):
    """Run the emitted program of scopes: recursion mirrors open / close / fail."""
    import jax.numpy as jnp, feax as fe
    U = .004
    class Boom(Exception): pass
    for q in arg["recs"]:
        pos = [0]; nid = [0]; got = {}; outer = {}; P = q["prog"]; order = []
        def body():
            while pos[0] < len(P):
                o = P[pos[0]]; pos[0] += 1
                if o == "work": time.sleep(U)
                elif o == "open":
                    nid[0] += 1; i = nid[0]; t0 = time.perf_counter(); blk = i % 2 == 0
                    try:
                        with fe.profile(f"s{i}", block_until_ready=blk) as r:
                            got[i] = r; r0 = len(r.records); body()
                    finally: outer[i] = (time.perf_counter() - t0, r0); order.append(i)
                elif o == "close": return
                else: raise Boom()
        while pos[0] < len(P):
            try: body(); failed = False
            except Boom: failed = True
            except Exception as e: failed = repr(e); break
        key = "nest:" + ",".join(P)
        emit(key, all(len(r.records) == 1 and r.records[0].label == f"s{i}" and outer[i][1] == 0 for i, r in got.items()) and len(got) == len(q["recs"]) and failed in (True, False), "every scope is recorded once under its own label", [{i: repr(r) for i, r in got.items()}, failed])
        emit(key, order == [x[0] for x in q["recs"]], "machinery: scopes close in order", [order, q["recs"]])
        emit(key, all(got[i].records and n * U <= got[i].records[0].wall_time_s <= outer[i][0] for i, n, _ in q["recs"] if i in got), "a scope's time covers what ran inside it and nothing outside", q["recs"])


def jaxpr(emit, arg):
    import jax, jax.numpy as jnp, numpy as np, feax as fe, tempfile
    from jax import lax
    C = {n: np.arange(1., n + 1) * 1.25 for n in (2, 3, 5)}
    for q in arg["recs"]:
        dt = np.float32 if len(q["ops"]) % 2 else np.float64; K = {n: jnp.asarray(v, dt) for n, v in C.items()}
        def f(*xs):                                         # per op: one primitive; a captured array is broadcast by shape equality
            v = {n: xs[0][n] for n in (1, 2, 3, 5)}; out = dict(v)
            for name, n in q["ops"]:
                if n: out[n] = getattr(lax, name)(out[n], K[n])
                elif name == "mul": out[1] = lax.mul(out[1], out[1])
                else: out[1] = getattr(lax, name)(out[1])
            return out, xs[1:]
        base = {n: jnp.ones(n, dt) for n in (1, 2, 3, 5)}; args = (base,) + tuple(jnp.zeros((2, i + 1)) for i in range(q["args"] - 1))
        info = fe.trace_jaxpr(f, *args); key = "jaxpr:" + repr(q["ops"]) + f":{q['args']}"; want = {k: q[k] for k in ("sin", "neg", "mul", "add", "sub") if q[k]}
        emit(key, info.num_eqns == q["n"] and dict(info.primitives) == want, "operations counted by kind", [info.num_eqns, info.primitives, want])
        emit(key, len(info.static_avals) == q["consts"] and info.static_bytes == q["elems"] * np.dtype(dt).itemsize, "captured constants and their bytes", [len(info.static_avals), info.static_bytes, q])
        emit(key, len(info.input_avals) == 4 + q["args"] - 1 and len(info.output_avals) == 4 + q["args"] - 1 and [tuple(a.shape) for a in info.input_avals] == [np.shape(x) for x in jax.tree_util.tree_leaves(args)], "inputs and outputs in order", [str(a) for a in info.input_avals])
    d = tempfile.mkdtemp(prefix="vprof_")
    import shutil
    try:
        p = os.path.join(d, "a", "b", "j.txt"); info.save(p); emit("jaxpr:save", open(p).read() == info.full_jaxpr() and "lambda" in info.full_jaxpr() and f"{info.num_eqns}" in repr(info), "the saved text is the program")
    finally: shutil.rmtree(d, ignore_errors=True)


def memory(emit, arg):
    os.environ["XLA_FLAGS"] = "--xla_force_host_platform_device_count=2"
    import gc
    import numpy as np, jax, feax as fe
    from jax.sharding import Mesh, NamedSharding, PartitionSpec
    D = jax.devices(); sh = NamedSharding(Mesh(np.array(D), "x"), PartitionSpec("x")); gc.collect()
    snap = lambda: [(m.live_buffers, m.live_bytes, m.device) for m in fe.memory_snapshot()]
    for k, q in enumerate(arg["recs"]):
        live = {}; gc.collect(); b0 = snap(); key = "memory:" + ";".join(f"{o['op']}{o['w']}x{o['z']}" + (f"#{o['id']}" if o["op"] == "del" else "") for o in q["prog"])
        emit(key, [x[2] for x in b0] == [str(d) for d in D], "one snapshot per device", b0)
        for o in q["prog"]:
            if o["op"] == "new": live[o["id"]] = jax.device_put(np.arange(o["z"] * 1.), D[o["w"]] if o["w"] < 2 else sh); live[o["id"]].block_until_ready()
            else: live.pop(o["id"])
            gc.collect() if k < 5 else None
            s = snap()
            emit(key, len(s) == 2 and all(s[d][0] - b0[d][0] == o["snap"]["b"][d] and s[d][1] - b0[d][1] == o["snap"]["n"][d] for d in range(2)), "each device is charged with what it holds", [s, b0, o])
        live.clear()
