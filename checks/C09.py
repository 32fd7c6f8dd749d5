"""C09 time stepping.  Specs: spec/TimeLoop.tla (the loop, its periods, adaptive steps; safety and termination checked by
TLC for every proposal sequence) and spec/Integrators.tla (exact Euler / RK2 / RK4 updates).  Every emitted run is replayed
through feax.solvers.time_solver.run with rounding-prone tick lengths and start times."""
import csv, io, contextlib, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

INV = ["LengthsSumToElapsed", "NeverPastEnd", "PositiveSteps", "InBounds", "HistoryIsEveryStep", "FinalTime", "SavedExactly", "CalledExactly"]


def main(ck):
    rng = ck.rng(ck.seed)
    out = []
    rng_set = lambda a, b: "{" + ", ".join(map(str, range(a, b))) + "}"
    def fixed():
        r = ck.tlc("TimeLoop", dict(Ts=rng_set(0, 13), Dts="{1, 2, 3, 5, 20}", Saves="{1, 2, 3, 10}", Cbs="{1, 2, 4}", Props="{}", DMin=1, DMax=99, G=4, Adapt="FALSE", Emit="TRUE"), spec="Spec", invariants=INV, properties=["Terminates"])
        out.extend(r.records)
    def long():
        r = ck.tlc("TimeLoop", dict(Ts="{100, 299}", Dts="{1, 3, 7}", Saves="{7, 10, 25}", Cbs="{1, 10}", Props="{}", DMin=1, DMax=99, G=4, Adapt="FALSE", Emit="TRUE"), spec="Spec", invariants=["LengthsSumToElapsed", "FinalTime", "SavedExactly"])
        out.extend(r.records)
    def sliver():      # a genuine remainder, small against dt, is a step of its own
        r = ck.tlc("TimeLoop", dict(Ts="{501, 1001, 1999, 10001}", Dts="{500, 1000, 10000}", Saves="{1, 7}", Cbs="{2}", Props="{}", DMin=1, DMax=99, G=4, Adapt="FALSE", Emit="TRUE"), spec="Spec", invariants=INV)
        out.extend(r.records)
    def adapt(dmin, dmax, g, depth):
        r = ck.tlc("TimeLoop", dict(Ts="{4, 7}", Dts="{1, 2}", Saves="{2, 5}", Cbs="{1, 3}", Props="{1, 2, 3, 5, 9}" if ck.thorough else "{1, 3, 9}", DMin=dmin, DMax=dmax, G=g, Adapt="TRUE", Emit="TRUE"), spec="Spec", invariants=INV, properties=["Terminates"] if ck.thorough else [])
        out.extend(rng.sample(r.records, min(len(r.records), 3000 if ck.thorough else 250)))
    integ = []
    def ints():
        r = ck.tlc("Integrators", dict(Us="{0, 1, 2, 3, 4}", TT="{0, 1, 3}", DTs="{2}", As="{0, 1, 3}", Bs="{0, 2}", Emit="TRUE"), spec="Spec", invariants=["Truncated", "Translation"])
        integ.extend(r.records)
    ck.threads([fixed, long, sliver, (adapt, 2, 6, 4, 8), (adapt, 2, 4, 2, 8), (adapt, 3, 12, 8, 8), ints], 6)
    seen = {}
    for x in out: seen[repr(x)] = x
    runs = sorted(seen.values(), key=repr); rng.shuffle(runs)
    ck.traces += len(runs) + len(integ)
    ck.sample(runs[0]); ck.sample(integ[0])
    n = 3
    ck.pool([("loop", dict(runs=runs[i::n], seed=ck.seed + i)) for i in range(n)] + [("steps", dict(recs=integ, seed=ck.seed)), ("implicit", dict(seed=ck.seed))], nproc=6)
    ck.assumptions += ["initial step size inside the adaptive bounds", "the user's step/monitor/save functions are pure"]


def loop(emit, a):
    import numpy as np
    import feax as fe
    from feax.solvers.time_solver import TimePipeline, TimeConfig, AdaptiveDtConfig, Callback, run
    rng = random.Random(a["seed"])
    mesh = fe.mesh.box_mesh((1.0, 1.0, 1.0), mesh_size=1.0)
    mesh0 = mesh
    for x in a["runs"]:
        unit = rng.choice([1.0, 0.1, 1 / 3, 1e-3, 0.7, 1e-9, 0.05]); t0 = rng.choice([0.0, 0.0, -2.0, 5.5, 1000.0]) if unit > 1e-4 else 0.0
        ev = dict(step=[], save=[], cb=[], mon=[], build=0)
        W = lambda h: t0 + h * unit / 2
        class P(TimePipeline):
            def build(self, m): ev["build"] += 1; assert m is mesh0
            def initial_state(self): return (0, "init")
            def step(self, state, t, dt):
                ev["step"].append((state[0], t, dt)); return (state[0] + 1, "s")
            def save(self, state, step, t, d): ev["save"].append((step, t, state[0], d))
            def monitor(self, state, step, t): return {"n": float(state[0]), "q": 10.0 * state[0] + 0.25}
        if x["adapt"]:
            def adapt_dt(self, state, step, t, dt): ev.setdefault("ad", []).append((step, t, dt)); return x["props"][step - 1] * unit / 2
            P.adapt_dt = adapt_dt
        dirs = rng.random() < 0.7
        d = os.path.join(os.getcwd(), "o%d" % rng.randrange(10 ** 9)) if dirs else None
        key = f"run:T={x['T']},dt={x['dt']},save={x['se']},cb={x['cb']},props={x['props']},unit={unit:.3g},t0={t0}"
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = run(P(), mesh, TimeConfig(dt=x["dt"] * unit, t_end=W(2 * x["T"]), t_start=t0, save_every=x["se"], print_every=rng.choice([1, 5])),
                        adaptive_dt=AdaptiveDtConfig(dt_min=x["dmin"] * unit / 2, dt_max=x["dmax"] * unit / 2, growth_factor=x["g"] / 2) if x["adapt"] else None,
                        output_dir=d, callbacks=[Callback(lambda s, k, t: ev["cb"].append((k, t, s[0])), every=x["cb"]), Callback(lambda s, k, t: ev.setdefault("cb1", []).append(k))])
        except Exception as e:
            emit(key, False, "run finishes", repr(e)[:400]); continue
        tol = 1e-9 * (abs(t0) + unit * (x["T"] + 1))
        near = lambda A, B: len(A) == len(B) and all(abs(p - q) <= tol for p, q in zip(A, B))
        n = len(x["lens"])
        emit(key, r.n_steps == n and len(ev["step"]) == n, "exactly the steps asked for", f"{r.n_steps} steps, expected {n}; last {ev['step'][-1:]}")
        emit(key, near([s[2] for s in ev["step"]], [l * unit / 2 for l in x["lens"]]), "step lengths", str(ev["step"][-3:]))
        starts = [W(h[1]) for h in x["hist"]]
        emit(key, near([s[1] for s in ev["step"]], starts[:-1]) and [s[0] for s in ev["step"]] == list(range(n)), "each step starts where the last one ended", str(ev["step"][:4]))
        emit(key, abs(r.t_final - W(2 * x["T"])) <= 1e-12 * max(1e-300, abs(t0) + unit * x["T"]) and r.final_state[0] == n, "final time and state", f"{r.t_final!r} {r.final_state}")
        H = r.history
        emit(key, list(H["step"]) == [h[0] for h in x["hist"]] and near(H["time"], starts) and list(H["n"]) == [float(h[0]) for h in x["hist"]] and list(H["q"]) == [10.0 * h[0] + 0.25 for h in x["hist"]], "history", str({k: v[-3:] for k, v in H.items()}))
        emit(key, [c[0] for c in ev["cb"]] == [c[0] for c in x["called"]] and near([c[1] for c in ev["cb"]], [W(c[1]) for c in x["called"]]) and all(c[0] == c[2] for c in ev["cb"]), "callbacks", str(ev["cb"][-3:]))
        emit(key, ev.get("cb1", []) == list(range(1, n + 1)), "every callback of the list runs at its own period", str(ev.get("cb1"))[:100])
        if x["adapt"]:
            emit(key, [q[0] for q in ev.get("ad", [])] == list(range(1, n + 1)) and near([q[1] for q in ev["ad"]], starts[1:]), "adaptation sees the finished step", str(ev.get("ad", [])[-2:]))
        if d:
            emit(key, [c[0] for c in ev["save"]] == [c[0] for c in x["saved"]] and near([c[1] for c in ev["save"]], [W(c[1]) for c in x["saved"]]) and all(c[0] == c[2] and c[3] == d for c in ev["save"]), "saved frames", str(ev["save"][-3:]))
            rows = list(csv.reader(open(os.path.join(d, "history.csv"))))
            body = [q for q in rows[1:] if q[0] != "0"]         # a row for the initial state is allowed
            emit(key, rows[0] == ["step", "time", "n", "q"] and [int(q[0]) for q in body] == [l[0] for l in x["log"]] and near([float(q[1]) for q in body], [W(l[1]) for l in x["log"]]) and [float(q[2]) for q in body] == [float(l[0]) for l in x["log"]], "log file", str(rows[-2:]))
        else:
            emit(key, not ev["save"], "nothing saved without an output directory")


def steps(emit, a):
    import numpy as np, jax.numpy as jnp
    from feax.solvers.time_solver import ExplicitPipeline
    from vlib import close, err
    rng = random.Random(a["seed"])
    for i, x in enumerate(a["recs"]):
        c = x["c"]
        form = rng.choice(["dict", "array", "tuple"])
        un = {"dict": lambda s: (s["u"], s["v"]["w"]), "array": lambda s: (s[0], s[1]), "tuple": lambda s: (s[0], s[1])}[form]
        mk = {"dict": lambda u, v: {"u": u, "v": {"w": v}}, "array": lambda u, v: np.array([u, v], float) if isinstance(u, (int, float)) else jnp.stack([u, v]), "tuple": lambda u, v: (u, v)}[form]
        for sch in ("euler", "rk2", "rk4"):
            class E(ExplicitPipeline):
                scheme = sch
                def build(self, m): pass
                def initial_state(self): pass
                def compute_rhs(self, s, t):
                    u, v = un(s)
                    r = (c["a"] * u + v * (c["b"] + t), c["b"] * u - c["a"] * t + u * v)
                    return np.array(r) if form == "array" else mk(*r)
            if form == "array": s0 = np.array(x["x"], float)
            else: s0 = mk(float(x["x"][0]), np.array([float(x["x"][1])]) if False else float(x["x"][1]))
            u = un(E().step(s0, float(x["t"]), float(x["dt"])))
            want = np.array(x[sch], float) / (6 if sch == "rk4" else 1)
            emit(f"{sch}:{x['x']}:{c}:t{x['t']}:dt{x['dt']}", close(np.array([float(u[0]), float(u[1])]), want, 1e-12), f"{sch} update", err(np.array([float(u[0]), float(u[1])]), want))
    class Bad(ExplicitPipeline):
        scheme = "rk3"
        def build(self, m): pass
        def initial_state(self): pass
        def compute_rhs(self, s, t): return s
    try: Bad().step(1.0, 0.0, 1.0); emit("unknown scheme", False, "an unknown scheme is rejected")
    except ValueError: emit("unknown scheme", True, "an unknown scheme is rejected")


def implicit(emit, a):
    import numpy as np, jax, jax.numpy as jnp
    import feax as fe
    from feax.solvers.time_solver import ImplicitPipeline, TimeConfig, run
    from vlib import close, err
    # chain of steps s' = 2 s + p (t + dt): derivative with respect to p with and without the cut
    class C(ImplicitPipeline):
        def __init__(self, p): self.p = p
        def build(self, m): self.solver = lambda tp, s: tp
        def initial_state(self): return jnp.array([1.0, -1.0])
        def update_vars(self, s, t, dt): return 2.0 * s + self.p * (t + dt)
    class Cut(C): pseudo_time = True
    for n in (1, 2, 3, 5):
        for dt in (1.0, 0.5):
            def total(p, cls):
                q = cls(p); q.build(None); s = q.initial_state()
                for k in range(n): s = q.step(s, k * dt, dt)
                return s.sum()
            full = 2 * sum(2.0 ** (n - 1 - k) * (k + 1) * dt for k in range(n))
            val = 2 * sum(2.0 ** (n - 1 - k) * (k + 1) * dt * 3.0 for k in range(n))
            for cls, g in ((C, full), (Cut, 2 * n * dt)):
                v, d = jax.value_and_grad(total)(3.0, cls)
                emit(f"chain:{cls.__name__}:{n}:{dt}", close(v, val, 1e-12) and close(d, g, 1e-12), "gradient through steps: full history, or only the last step in pseudo time", f"{v} {val} {d} {g}")
    # a real backward Euler heat problem against the dense recursion
    for n, dt, sol in ((7, 0.1, True), (3, 0.25, False)):
        mesh = fe.mesh.rectangle_mesh(3, 2, domain_x=1.5, domain_y=1.0)
        class H(fe.Problem):
            def get_tensor_map(self): return lambda g, old, w: w * 0.7 * g
            def get_mass_map(self): return lambda u, x, old, w: u - old - w * x[0]
        prob = H(mesh, vec=1, dim=2, ele_type="QUAD4")
        bc = fe.DirichletBCConfig([fe.DirichletBCSpec(location=lambda p: jnp.isclose(p[0], 0.0), component="all", value=0.5)]).create_bc(prob)
        N = prob.num_total_dofs_all_vars
        u0 = np.linspace(0, 1, N); u0[np.asarray(bc.bc_rows)] = 0.5
        class HP(ImplicitPipeline):
            def build(self, m):
                tp = fe.TracedParams(volume_vars=(jnp.zeros(N), jnp.full(len(mesh.cells), dt)))
                self.solver = fe.create_solver(prob, bc, fe.DirectSolverOptions(solver="umfpack"), linear=True, traced_params=tp, return_solution=sol)
            def initial_state(self): return jnp.array(u0)
            def update_vars(self, s, t, d): return fe.TracedParams(volume_vars=(s, jnp.full(len(mesh.cells), d)))
            def monitor(self, s, k, t): return {"m": float(jnp.sum(s)), "ty": float(hasattr(s, "dofs"))}
        T = dt * n + 0.4 * dt
        with contextlib.redirect_stdout(io.StringIO()):
            r = run(HP(), mesh, TimeConfig(dt=dt, t_end=T))
        from feax.assembler import get_res
        def sys_(d):
            f = lambda u, old: jax.flatten_util.ravel_pytree(get_res(prob, prob.unflatten_fn_sol_list(u), fe.TracedParams(volume_vars=(old, jnp.full(len(mesh.cells), d)))))[0]
            z = jnp.zeros(N)
            return np.asarray(jax.jacfwd(f, 0)(z, z)), np.asarray(jax.jacfwd(f, 1)(z, z)), np.asarray(f(z, z))
        rows = np.asarray(bc.bc_rows); fr = np.setdiff1d(np.arange(N), rows)
        u = u0.copy(); ms = [u.sum()]
        for k in range(n + 1):
            K, M, f = sys_(dt if k < n else 0.4 * dt)
            rhs = -(M @ u + f); w = np.zeros(N); w[rows] = 0.5
            w[fr] = np.linalg.solve(K[np.ix_(fr, fr)], (rhs - K @ w)[fr]); u = w; ms.append(u.sum())
        emit(f"heat:{n}:{dt}", r.n_steps == n + 1 and close(np.asarray(r.final_state), u, 1e-7) and close(r.history["m"], ms, 1e-7), "backward Euler run equals the dense recursion", err(np.asarray(r.final_state), u))
        emit(f"heat:{n}:{dt}", max(r.history["ty"]) == 0.0, "the carried state stays a flat vector")
