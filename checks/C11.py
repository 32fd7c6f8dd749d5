"""C11 optimization driver.  Specs: spec/OptDriver.tla (the run as a state machine with the optimizer as environment),
spec/Responses.tla (exact compliance and volume fractions).  Runs are replayed through gene.optimizer.run with a pipeline that
records what every evaluation sees; history, CSV, snapshots, hand-over at remeshes and the final result are compared."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))


def main(ck):
    rng = ck.rng(ck.seed); T = ck.thorough
    inv = ["ScheduledParameters", "ScheduledMesh", "PinsOnlyOnInitialMesh", "FreshOptimizer", "BudgetRespected", "InRange", "NoRemeshAtEnd"]
    R = {}
    def deep(): ck.tlc("OptDriver", dict(MaxIters="{0, 1, 5, 6}", Inits="{1, 3}", Finals="{0, 3}", Everys="{1, 2, 4}" if not T else "{1, 2, 3, 4}", Steps="{1, 3, 4}" if T else "{1, 4}", AdaptEverys="{0, 2, 3}", NAdapts="{1, 2}", Early=1 if not T else 2, Emit="FALSE"),
                       spec="Spec", invariants=inv, properties=["Terminates"])
    def emit():
        r = ck.tlc("OptDriver", dict(MaxIters="{7, 12}", Inits="{1, 3}", Finals="{1, 4}", Everys="{3, 5}", Steps="{0, 3, 4}", AdaptEverys="{0, 3, 4, 6}", NAdapts="{1, 3}", Early=0, Emit="TRUE"), spec="Spec", invariants=inv)
        R["r"] = sorted(r.records, key=repr)
    def resp():
        import fx
        S = []
        for k in range(12 if not T else 60):
            dims = rng.choice([(1, 1), (2, 1), (2, 3), (3, 3)]); pts, cells = fx.box_cells(dims, rng); vec = rng.choice([1, 2]); nn = len(pts)
            surf = []
            for ax, val in rng.sample([(0, 0), (0, dims[0]), (1, 0), (1, dims[1])], rng.randint(1, 3)):
                surf.append(dict(ax=ax, val=val, faces=[n for _, n in fx.box_faces(2, pts, cells, ax, val)], t=rng.randint(1, 4), T=[rng.randint(-3, 3) for _ in range(vec)], g=rng.choice([0, 0, 1])))
            S.append(dict(id=k, pts=pts, cells=cells, u=[[rng.randint(-3, 3) for _ in range(vec)] for _ in pts], surf=surf, rn=[rng.randint(0, 5) for _ in pts], rc=[rng.randint(0, 5) for _ in cells], rq=[[rng.randint(0, 5) for _ in range(4)] for _ in cells]))
        r = ck.tlc("Responses", dict(ScenFile='"s.json"', Emit="TRUE"), files={"s.json": S}, spec="Spec", invariants=["Linear"], workers=1)
        R["s"] = [(s, x) for s, x in zip(S, sorted(r.records, key=lambda q: q["id"]))]
    ck.threads([deep, emit, resp], 3)
    runs = R["r"]; rng.shuffle(runs)
    both = [r for r in runs if len(r["remeshes"]) >= 1 and len({tuple(e["p"]) for e in r["evals"]}) >= 3]
    runs = both[: 200 if T else 26] + runs[: 100 if T else 16]
    runs.append(dict(runs[0], c=dict(runs[0]["c"], max=0), evals=[], remeshes=[], final=dict(p=runs[0]["c"]["init"], m=0)))
    ck.traces += len(runs) + len(R["s"])
    ck.sample(runs[0]); ck.sample(R["s"][0][1])
    ck.pool([("drive", dict(runs=runs[i::6], seed=ck.seed * 100 + i)) for i in range(6)] + [("responses", dict(items=R["s"], seed=ck.seed)), ("transfer", dict(seed=ck.seed, n=40 if T else 8)), ("optima", dict(seed=ck.seed, n=24 if T else 7))], nproc=8)
    ck.assumptions += ["NLopt evaluates the objective exactly as often as its budget allows (no tolerance is set by the driver)"]


# ------------------------------------------------------------------------------------------------ workers
def mk_mesh(k, nr, tet, keep):
    """mesh number k of a run: same node count for keep (moved nodes), otherwise another one"""
    import numpy as np, fx
    import feax as fe
    if tet:
        n = [1, 1, 1] if (keep or k % 2 == 0) else [2, 1, 1]
        pts, cells = fx.ref_mesh("TET4", n); X = np.array(pts, float) / 2
        X = X / np.array(n)                       # unit cube
        if keep and k: X = X[::-1].copy(); cells = [[len(pts) - 1 - v for v in c] for c in cells]
        return fe.Mesh(X, np.array(cells), ele_type="TET4")
    from feax.mesh import rectangle_mesh
    m = rectangle_mesh(2 if keep else 2 + k % 3, 2, 1.0 + 0.25 * k, 1.0)
    return m


def drive(emit, arg):
    import contextlib, csv, io, shutil, tempfile
    import numpy as np, jax, jax.numpy as jnp, meshio
    from feax.gene.optimizer import Pipeline, constraint, run, Continuation, AdaptiveConfig
    from feax.gene.adaptive import interpolate_field
    rng = random.Random(arg["seed"]); nr = np.random.default_rng(arg["seed"])
    for ri, r in enumerate(arg["runs"]):
        c = r["c"]; key = f"run{arg['seed']}.{ri}"
        tet = rng.random() < .3; keep = rng.random() < .5; jit = rng.random() < .75; scale = rng.choice([1.0, 0.5, 0.1])
        own = (not tet) or rng.random() < .4                     # own transfer function or the library's (TET4 only)
        lo, hi = rng.choice([(0.001, 1.0), (0.1, 0.9), (0.0, 1.0)])
        meshes = [mk_mesh(k, nr, tet, keep) for k in range(4)]
        rec, crec, events, trans = [], {"vol": [], "eqc": []}, [], []
        flt = rng.random() < .5
        class P(Pipeline):
            def build(self, mesh):
                self.mid = [k for k, m in enumerate(meshes) if m is mesh][0]; events.append(("build", self.mid))
                n = len(mesh.points); self.a = jnp.array(0.5 + 0.3 * np.sin(np.arange(n) + self.mid)); self.w = 1.0 + self.mid
            def _obj(self, rho, beta, pen): return self.w * jnp.sum((rho - self.a) ** 2) + 0.01 * beta * pen * jnp.sum(rho)
            def objective(self, rho, beta, pen):
                jax.debug.callback(lambda x, b, q, m=self.mid: rec.append((np.array(x), float(b), float(q), m)), rho, beta, pen, ordered=True)
                return self._obj(rho, beta, pen)
            @constraint(target=0.45)
            def vol(self, rho, beta, pen): return jnp.mean(rho) + 0.0 * self.w + 0.001 * (self.w - 1) * beta
            @constraint(target=0.4, type="eq", tol=0.2)
            def eqc(self, rho, beta, pen): return jnp.mean(rho) * (1 + 0.01 * self.mid) + 0.0001 * pen
            def filter(self, rho): return rho * 0.5 if flt else rho
        A = lambda m: 0.5 + 0.3 * np.sin(np.arange(len(meshes[m].points)) + m)
        fobj = lambda x, b, q, m: (1.0 + m) * np.sum((x - A(m)) ** 2) + 0.01 * b * q * np.sum(x)
        fvol = lambda x, b, q, m: x.mean() + 0.001 * m * b
        feq = lambda x, b, q, m: x.mean() * (1 + 0.01 * m) + 0.0001 * q
        nxt = {"k": 0}
        def remesh(old, rho):
            events.append(("remesh", [k for k, m in enumerate(meshes) if m is old][0])); trans.append([np.array(rho), None, None])
            nxt["k"] += 1; return meshes[nxt["k"]]
        def transfer(x, po, pn):
            y = np.clip(np.interp(pn[:, 0], np.linspace(0, pn[:, 0].max(), len(x)), x), lo, hi)
            trans[-1][1] = np.array(x); trans[-1][2] = (np.array(po), np.array(pn), y.copy()); return y
        n0 = len(meshes[0].points)
        ps = sorted(rng.sample(range(n0), rng.choice([0, 2]))); pv = [k for k in sorted(rng.sample(range(n0), rng.choice([0, 1]))) if k not in ps]
        init = nr.uniform(lo, hi, n0) if rng.random() < .6 else None
        out = tempfile.mkdtemp(prefix="c11_"); sv = rng.choice([1, 3, 50])
        conts = {n: Continuation(initial=c["init"][k] * scale, final=c["fin"][k] * scale, update_every=c["every"][k], step=c["step"][k] * scale) for k, n in enumerate(("beta", "pen"))}
        ad = AdaptiveConfig(remesh=remesh, adapt_every=c["ae"], n_adapts_max=c["na"], transfer=transfer if own else None) if c["ae"] else None
        init0 = None if init is None else init.copy()
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                try: res = run(P(), meshes[0], max_iter=c["max"], continuations=conts, adaptive=ad, output_dir=out, save_every=sv, rho_init=init, rho_bounds=(lo, hi), passive_solid=np.array(ps, int) if ps else None, passive_void=np.array(pv, int) if pv else None, jit=jit)
                except Exception as ex: emit(key, False, "run-completes", dict(c=c, err=repr(ex)[:300])); continue
            jax.effects_barrier()
            if init is not None: emit(key + ":init-untouched", bool((init == init0).all()), "inputs-untouched")
            info = dict(c=c, tet=tet, keep=keep, jit=jit)
            n = c["max"]; evs = rec[:n]                            # the run's own evaluations; the summary evaluates once more
            emit(key + ":count", len(res.history["objective"]) == n and len(rec) >= n, "evaluation-count", dict(info, got=len(res.history["objective"])))
            emit(key + ":iters", res.history["iteration"] == list(range(1, n + 1)), "history-order")
            if len(res.history["objective"]) != n or len(rec) < n: continue
            # --- each evaluation against the specification
            first = [0] + sorted(set(r["remeshes"]) | {i for i in range(1, n) if r["evals"][i]["p"] != r["evals"][i - 1]["p"]})
            rows = list(csv.reader(open(os.path.join(out, "history.csv"))))
            hdr, rows = rows[0], rows[1:]
            emit(key + ":csv-rows", len(rows) == n and hdr[0] == "iteration" and set(hdr) >= {"objective", "vol", "eqc", "eqc_lb", "beta", "pen"}, "csv", hdr)
            for i, e in enumerate(r["evals"]):
                x, b, q, m = evs[i]; eb, eq = e["p"][0] * scale, e["p"][1] * scale; ki = f"{key}:e{i + 1}"
                emit(ki + ":params", abs(b - eb) < 1e-12 and abs(q - eq) < 1e-12, "scheduled-parameters", dict(info, got=[b, q], want=[eb, eq]))
                emit(ki + ":mesh", m == e["m"] and len(x) == len(meshes[e["m"]].points), "scheduled-mesh", dict(info, got=m, want=e["m"]))
                if len(x) != len(meshes[e["m"]].points): continue
                pins = set(ps) | set(pv) if e["pin"] else set()
                ok = all(lo <= v <= hi for k, v in enumerate(x) if k not in pins) and (not e["pin"] or (all(x[k] == 1.0 for k in ps) and all(x[k] == lo for k in pv)))
                emit(ki + ":bounds", bool(ok), "bounds-and-pins", dict(info, pins=[ps, pv], x=x))
                want = dict(objective=fobj(x, eb, eq, e["m"]), vol=fvol(x, eb, eq, e["m"]), eqc=feq(x, eb, eq, e["m"]), eqc_lb=feq(x, eb, eq, e["m"]))
                for nme, w in want.items():
                    g = res.history[nme][i]; emit(f"{ki}:{nme}", abs(g - w) < 1e-9 * (1 + abs(w)), "history-values", dict(info, got=g, want=w, mesh=e["m"]))
                    if len(rows) == n: emit(f"{ki}:csv:{nme}", abs(float(rows[i][hdr.index(nme)]) - w) < 1e-6 * (1 + abs(w)), "csv", dict(got=rows[i]))
                if len(rows) == n: emit(f"{ki}:csv:par", int(rows[i][0]) == i + 1 and abs(float(rows[i][hdr.index("beta")]) - eb) < 1e-9 and abs(float(rows[i][hdr.index("pen")]) - eq) < 1e-9, "csv", rows[i])
                if (i + 1) % sv == 0:
                    fn = os.path.join(out, f"iter_{i + 1:04d}.vtu"); okf = os.path.exists(fn)
                    if okf:
                        mm = meshio.read(fn); d = mm.point_data["density"].reshape(-1); okf = len(d) == len(x) and np.allclose(d, x * (0.5 if flt else 1), atol=1e-6) and len(mm.cells[0].data) == len(meshes[e["m"]].cells)
                    emit(ki + ":vtu", bool(okf), "snapshots", fn)
            # --- phases start from a design evaluated in the phase before (or the hand-over of a remesh)
            for j, f in enumerate(first[1:], 1):
                x = evs[f][0]; prev = [evs[i][0] for i in range(first[j - 1], f)]
                if f in r["remeshes"]:
                    t = trans[r["remeshes"].index(f)]; om = r["evals"][f - 1]["m"]
                    emit(f"{key}:p{f}:filtered", any(np.allclose(t[0], (0.5 if flt else 1) * p, atol=1e-12) for p in prev), "remesh-sees-filtered-design")
                    if own:
                        emit(f"{key}:p{f}:transfer", t[2] is not None and np.allclose(t[0], (0.5 if flt else 1) * t[1]) and np.allclose(t[2][0], meshes[om].points) and np.allclose(t[2][1], meshes[om + 1].points) and np.allclose(x, t[2][2], atol=1e-12), "hand-over", info)
                    else:
                        xo = t[0] / (0.5 if flt else 1); w = np.clip(tet_interp(xo, meshes[om], np.asarray(meshes[om + 1].points)), lo, hi)
                        emit(f"{key}:p{f}:interp", bool(np.allclose(x, w, atol=1e-9)), "hand-over", dict(info, err=float(np.abs(x - w).max())))
                else: emit(f"{key}:p{f}:cont", any((x == p).all() for p in prev), "phase-continues-design")
            if n:
                x0 = evs[0][0]; w0 = np.full(n0, min(max(min(0.5, 0.45, 0.6), lo), hi)) if init is None else init0.copy()
                w0[ps] = 1.0; w0[pv] = lo
                emit(key + ":start", bool((x0 == w0).all()), "initial-design", dict(x0=x0, want=w0))
            # --- final result
            fb, fq, fm = r["final"]["p"][0] * scale, r["final"]["p"][1] * scale, r["final"]["m"]
            emit(key + ":final-mesh", res.mesh is meshes[fm] and len(res.rho) == len(meshes[fm].points), "final-mesh")
            x = np.asarray(res.rho)
            if n: emit(key + ":final-design", any((x == evs[i][0]).all() for i in range(first[-1], n)), "final-design")
            if len(x) == len(meshes[fm].points):
                emit(key + ":final-obj", abs(res.final_objective - fobj(x, fb, fq, fm)) < 1e-9 * (1 + abs(res.final_objective)), "final-values", dict(info, got=res.final_objective, want=fobj(x, fb, fq, fm)))
                fc = res.final_constraints
                emit(key + ":final-con", set(fc) == {"vol", "eqc", "eqc_lb"} and abs(fc["vol"] - fvol(x, fb, fq, fm)) < 1e-9 and abs(fc["eqc"] - feq(x, fb, fq, fm)) < 1e-9 and abs(fc["eqc_lb"] - feq(x, fb, fq, fm)) < 1e-9, "final-values", fc)
                emit(key + ":final-filter", bool(np.allclose(res.rho_filtered, x * (0.5 if flt else 1))), "final-values")
                mm = meshio.read(os.path.join(out, "final.vtu")); emit(key + ":final-vtu", np.allclose(mm.point_data["density"].reshape(-1), res.rho_filtered, atol=1e-6), "snapshots")
            emit(key + ":events", [e for e in events] == [("build", 0)] + sum([[("remesh", k), ("build", k + 1)] for k in range(len(r["remeshes"]))], []), "remesh-rebuilds", events)
        finally:
            shutil.rmtree(out, ignore_errors=True)


def tet_interp(v, mesh, pts):
    """independent interpolation: any containing tetrahedron, nearest node outside"""
    import numpy as np
    P, C = np.asarray(mesh.points), np.asarray(mesh.cells); out = []
    for p in pts:
        best = None
        for c in C:
            A = np.vstack([P[c].T, np.ones(4)]); lam = np.linalg.solve(A, np.append(p, 1.0))
            if best is None or lam.min() > best[0]: best = (lam.min(), lam @ v[c])
        out.append(best[1] if best[0] > -1e-7 else v[np.argmin(((P - p) ** 2).sum(1))])
    return np.array(out)


def transfer(emit, arg):
    import numpy as np
    import feax as fe, fx
    from feax.gene.adaptive import interpolate_field, gradient_refinement
    rng = random.Random(arg["seed"] + 2); nr = np.random.default_rng(arg["seed"] + 2)
    for k in range(arg["n"]):
        # graded meshes: some cells much larger than their neighbours (the containing cell is then not among the nearest centroids)
        n = rng.choice([(1, 1, 1), (4, 3, 2), (5, 4, 3)]); pts, cells = fx.ref_mesh("TET4", n, rng); X = np.array(pts, float) / 2 / np.array(n)
        g = rng.choice([1, 4, 8]); X[:, 0] = X[:, 0] ** g; X[:, 1] = X[:, 1] ** rng.choice([1, g])
        m = fe.Mesh(X, np.array(cells), ele_type="TET4")
        c = nr.normal(size=3); lin = X @ c + 0.7; pn = np.concatenate([nr.uniform(0, 1, (60, 3)), X[:5], np.array([[0, 0, 0], [1, 1, 1], [.5, 0, 1]])])
        got = interpolate_field(lin, m, pn)
        emit(f"tr{k}:linear", bool(np.allclose(got, pn @ c + 0.7, atol=1e-9)), "transfer-linear-exact", dict(n=n, g=g, err=float(np.abs(got - pn @ c - .7).max())))
        v = nr.uniform(size=len(X)); got = interpolate_field(v, m, pn); ref = tet_interp(v, m, pn)
        emit(f"tr{k}:values", bool(np.allclose(got, ref, atol=1e-7)), "transfer-values", dict(n=n, g=g))
        outp = np.array([[-1.0, 0, 0], [2, 2, 2], [0.5, 3, .5]]); got = interpolate_field(v, m, outp); dd = [((X - p) ** 2).sum(1) for p in outp]
        emit(f"tr{k}:outside", all(any(abs(g - v[j]) < 1e-12 for j in np.where(d < d.min() + 1e-9)[0]) for g, d in zip(got, dd)), "transfer-outside")
        got = interpolate_field(v * 3 - 1, m, pn, clip=(0.0, 1.0)); emit(f"tr{k}:clip", bool((got >= 0).all() and (got <= 1).all() and np.allclose(got, np.clip(tet_interp(v * 3 - 1, m, pn), 0, 1), atol=1e-6)), "transfer-clip")
        gr = gradient_refinement(X @ c, m); emit(f"tr{k}:grad", bool(np.allclose(gr, 1.0, atol=1e-9)), "gradient-refinement")


def responses(emit, arg):
    import numpy as np, jax.numpy as jnp
    import feax as fe
    from feax.gene.responses import create_compliance_fn, create_dynamic_compliance_fn, create_volume_fn
    rng = random.Random(arg["seed"])
    for s, x in arg["items"]:
        vec = len(s["u"][0]); key = f"resp{s['id']}"
        maps = [(lambda u, p, t, S=S: t * (jnp.array(S["T"], float) + S["g"] * u)) for S in s["surf"]]
        class P(fe.Problem):
            def get_tensor_map(self): return lambda g: g
            def get_surface_maps(self): return maps
        mesh = fe.Mesh(np.array(s["pts"], float), np.array(s["cells"]), ele_type="QUAD4")
        fns = [eval("lambda p: jnp.isclose(p[a], v, atol=1e-5)", dict(jnp=jnp, a=S["ax"], v=float(S["val"]))) for S in s["surf"]]
        pr = P(mesh=mesh, vec=vec, dim=2, ele_type="QUAD4", location_fns=fns)
        sol = jnp.array(np.array(s["u"], float).reshape(-1)); want = x["comp6"] / 6; tol = 1e-9 * (1 + abs(want))
        ts = [S["t"] for S in s["surf"]]
        for lab, tt in (("list", [float(t) for t in ts]), ("numpy", np.array(ts, float)), ("jax", jnp.array(ts, float)), ("tuple", tuple(map(float, ts)))):
            g = float(create_compliance_fn(pr, tt)(sol)); emit(f"{key}:{lab}", abs(g - want) < tol, "compliance", dict(got=g, want=want, kind=lab, surfaces=len(ts)))
        if len(set(ts)) == 1:
            for lab, tt in (("scalar", float(ts[0])), ("0-d", jnp.array(float(ts[0])))):
                g = float(create_compliance_fn(pr, tt)(sol)); emit(f"{key}:{lab}", abs(g - want) < tol, "compliance", dict(got=g, want=want))
        sv = []
        for b, t in zip(pr.boundary_inds_list, ts): sv.append((jnp.full((len(b), pr.fes[0].num_face_quads), float(t)),))
        g = float(create_dynamic_compliance_fn(pr)(sol, sv)); emit(key + ":dynamic", abs(g - want) < tol, "compliance", dict(got=g, want=want))
        vf = create_volume_fn(pr); nc = x["ncells"]
        emit(key + ":vnode", abs(float(vf(jnp.array(s["rn"], float))) - x["node4"] / 4 / nc) < 1e-12 * 10 or len(s["rn"]) == nc, "volume-fraction")
        emit(key + ":vcell", abs(float(vf(jnp.array(s["rc"], float))) - x["cell"] / nc) < 1e-11, "volume-fraction")
        emit(key + ":vquad", abs(float(vf(jnp.array(s["rq"], float))) - x["quad4"] / 4 / nc) < 1e-11, "volume-fraction")


def optima(emit, arg):
    """separable convex problems with a known constrained optimum: the driver's constraints and gradients reach the optimizer"""
    import contextlib, io
    import numpy as np, jax.numpy as jnp
    from feax.gene.optimizer import Pipeline, constraint, run
    from feax.mesh import rectangle_mesh
    rng = random.Random(arg["seed"] + 4)
    for k in range(arg["n"]):
        kind = ["le", "eq-hi", "eq-lo", "slack", "two", "neg", "none"][k % 7]
        mesh = rectangle_mesh(2, 2); n = 9; a = np.array([rng.randint(45, 60) / 100 for _ in range(n)]); am = a.mean()
        t = dict(le=am - .1, slack=am + .1, two=am - .1, neg=am, none=0).get(kind, am - .1 if kind == "eq-hi" else am + .1)
        class P(Pipeline):
            def build(self, mesh): pass
            def objective(self, rho): return jnp.sum((rho - a) ** 2)
        if kind in ("le", "slack", "two"):
            def c1(self, rho): return jnp.mean(rho)
            P.c1 = constraint(target=float(t))(c1)
        if kind == "two":
            def c2(self, rho): return rho[0] * 1.0
            P.c2 = constraint(target=float(a[0] - .2))(c2)
        if kind == "neg":
            def c1(self, rho): return jnp.mean(rho) - float(am - .1)
            P.c1 = constraint(target=0.0)(c1)
        if kind.startswith("eq"):
            def c1(self, rho): return jnp.mean(rho)
            P.c1 = constraint(target=float(t), type="eq", tol=0.02)(c1)
        with contextlib.redirect_stdout(io.StringIO()): 
            try: res = run(P(), mesh, max_iter=150, rho_bounds=(0.001, 1.0), rho_init=np.full(n, float(t)) if kind == "eq-lo" else None)     # (NLopt's MMA may stall from an infeasible start)
            except Exception as ex: emit(f"opt{k}", False, "run-completes", dict(kind=kind, err=repr(ex)[:200])); continue
        sh = dict(le=-.1, slack=0, neg=-.1, none=0).get(kind)
        if kind == "eq-hi": sh = -.08
        if kind == "eq-lo": sh = .08
        if kind == "two":
            # rho_0 <= a_0 - .2 is stronger than the common shift s; the rest shares the remaining volume
            w = a.copy(); w[0] = a[0] - .2; rest = (n * t - w[0] - a[1:].sum()) / (n - 1); w[1:] = a[1:] + min(rest, 0)
        else: w = a + sh
        emit(f"opt{k}:{kind}", bool(np.abs(res.rho - w).max() < 4e-3), "optimum-reached", dict(kind=kind, err=float(np.abs(res.rho - w).max())))
