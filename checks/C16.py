"""C16 filters, projections, thresholds.  Spec: Filters (distance histograms, exact discrete Helmholtz operator, dyadic projection values, exact percentiles).
TLC's records are replayed through create_density_filter / create_helmholtz_filter / create_sensitivity_filter / heaviside_projection / compute_volume_fraction_threshold."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fx


def main(ck):
    rng = ck.rng(ck.seed * 7 + 16); T = ck.thorough; R = []
    S = []
    def add(**k): k["id"] = len(S); S.append(k)
    # distance filter: sizes around the internal batch, lattices, clouds, coincident points
    for k in range(60 if T else 12):
        dim = rng.choice([2, 3, 3]); n = [40, 499, 500, 501, 640, 1003, 120, 505, 999, 1, 77, 1000][k % 12]
        side = max(2, round((n * rng.choice([1, 2])) ** (1 / dim)) + 1)
        allp = [[(j // side ** a) % side for a in range(dim)] for j in range(side ** dim)]
        if k % 4 == 3: pts = [[rng.randint(0, 7) for _ in range(dim)] for _ in range(n)]
        else: pts = rng.sample(allp, min(n, len(allp)))
        n = len(pts); rn = rng.choice([1, 2, 3, 4, 5, 6, 10 if dim == 2 else 5])
        qs = sorted({1, n} | {q for q in (2, 499, 500, 501, 502, 1000, 1001) if q <= n} | {rng.randint(1, n) for _ in range(6)})
        add(kind="density", pts=pts, rho=[rng.randint(-3, 9) for _ in range(n)], rn=rn, qs=qs)
    for k in range(150 if T else 30):
        d = [rng.randint(1, 5), rng.randint(1, 4), rng.randint(1, 3)]; nc = d[0] * d[1] * d[2]; na = rng.randint(1, nc); act = rng.sample(range(nc), na)
        if k % 3 == 0: act.sort()
        add(kind="sens", dims=d, act=act, rho=[rng.randint(0, 8) for _ in act], dc=[rng.randint(-9, 9) for _ in act], rm=rng.choice([3, 4, 5, 6, 7, 8, 10, 12, 13]))
    H = [("QUAD4", (2, 2)), ("QUAD4", (3, 1)), ("TRI3", (2, 3)), ("TRI3", (1, 1)), ("HEX8", (2, 1, 1)), ("TET4", (2, 1, 1)), ("HEX8", (2, 2, 1)), ("TRI3", (3, 2))] + ([("TET4", (1, 2, 2)), ("QUAD4", (4, 3)), ("HEX8", (2, 2, 2)), ("TRI3", (4, 3)), ("QUAD4", (1, 1))] if T else [])
    for e, dims in H:
        pts, cells = fx.ref_mesh(e, dims, rng); d = len(dims)
        if e in ("QUAD4", "HEX8"): st = [rng.randint(1, 3) for _ in dims]; pts = [[p[k] // 2 * st[k] for k in range(d)] for p in pts]; per = [rng.randint(0, 1) for _ in dims]
        else:
            A = [[1, rng.randint(-1, 1), 0], [0, 1, rng.randint(-1, 1)], [0, 0, 1]]; pts = [[sum(A[r][c] * p[c] for c in range(d)) for r in range(d)] for p in pts]; per = [0] * d
        add(kind="helm", e=e, dims=list(dims), pts=pts, cells=cells, per=per)
    for e in fx.REF:
        for dims in ([(2, 3)] if len(fx.REF[e][0]) == 2 else [(2, 1, 1)]) + ([(1, 1), (4, 2)] if T and len(fx.REF[e][0]) == 2 else []):
            pts, cells = fx.ref_mesh(e, dims, rng); add(kind="integ", e=e, dims=list(dims), pts=pts, cells=cells)
    add(kind="proj", n=26)
    for k in range(400 if T else 60):
        n = rng.choice([1, 2, 3, 7, 10, 16, 33]); den = rng.choice([1, 2, 3, 4, 5, 10, 20])
        add(kind="thr", rho=rng.sample(range(-20, 60), n) if k % 3 else [rng.randint(0, 4) for _ in range(n)], num=rng.randint(0, den), den=den)
    groups = [[s for s in S if s["kind"] == "density"][i::3] for i in range(3)] + [[s for s in S if s["kind"] in ("sens", "proj", "thr")], [s for s in S if s["kind"] in ("helm", "integ")][::2], [s for s in S if s["kind"] in ("helm", "integ")][1::2]]
    def one(g):
        r = ck.tlc("Filters", dict(ScenFile='"s.json"', Emit="TRUE"), files={"s.json": g}, spec="Spec", invariants=["Sound"], workers=1); R.extend((S[x["id"]], x) for x in r.records)
    ck.threads([(one, g) for g in groups], 6)
    R.sort(key=lambda x: x[0]["id"]); ck.traces += len(R); by = lambda *k: [x for x in R if x[0]["kind"] in k]
    ck.sample(dict(by("sens")[0][1])); ck.sample(by("thr")[0])
    hel, itg = by("helm"), by("integ")
    ck.pool([("density", dict(items=by("density"), seed=ck.seed, T=T)), ("cells", dict(items=by("sens", "thr", "proj"), seed=ck.seed))] + [("helm", dict(items=hel[i::3], seed=ck.seed)) for i in range(3)] + [("integ", dict(items=itg[i::3], seed=ck.seed)) for i in range(3)], nproc=8)
    ck.assumptions += ["one-point triangle and tetrahedron rules, 2-point rules per axis for QUAD4/HEX8 (checked by C18)", "the Helmholtz solve is compared at its own linear tolerance", "radii are half-integers of the lattice so that membership at the radius is exact"]


# ------------------------------------------------------------------------------------------------ workers
def mesh_of(pts, cells=None, e=None, h=1.0, off=0.0):
    import numpy as np, feax as fe
    return fe.Mesh(np.array(pts, float) * h + off, np.array(cells if cells else [[0] * 4]), ele_type=e or "TET4")


def density(emit, arg):
    import numpy as np, jax, jax.numpy as jnp
    from vlib import close, err
    from feax.gene import filters as F
    rng = random.Random(arg["seed"])
    W = dict(cone=lambda d, r: r - d, gaussian=lambda d, r: np.exp(-(d / r) ** 2), constant=lambda d, r: 1.0 + 0 * d)
    for s, x in arg["items"]:
        n = len(s["pts"]); rho = np.array(s["rho"], float); q = np.array(s["qs"]) - 1; dim = len(s["pts"][0])
        for wt in W:
            h = 2.0 ** rng.choice([-50, -40, -3, 0, 5, 20]); key = f"d:{s['id']}:{n}:{s['rn']}:{wt}:{h}"; r = s["rn"] / 2 * h
            pts = np.array(s["pts"], float) * h; m = mesh_of(pts); m = type(m)(jnp.asarray(pts), m.cells, ele_type=m.ele_type) if rng.random() < .5 else m
            f = F.create_density_filter(m, r) if wt == "cone" and rng.random() < .5 else F.create_density_filter(m, r, wt)
            want = []
            for hist in x["hist"]:
                d, sm, c = np.array(hist, float).reshape(-1, 3).T; w = W[wt](np.sqrt(d), s["rn"] / 2); want.append((w @ sm) / (w @ c))
            got = np.asarray(f(jnp.asarray(rho)))
            emit(key, got.shape == (n,) and close(got[q], want, 1e-12), "weighted average over the points within the radius", dict(s=dict(n=n, rn=s["rn"], dim=dim), q=s["qs"], e=err(got[q], np.array(want)), h=h))
            emit(key + ":range", bool(got.min() >= rho.min() - 1e-9 and got.max() <= rho.max() + 1e-9), "stays between the smallest and largest input")
            c0 = rng.choice([1.0, .3, -7.0]); emit(key + ":const", close(f(jnp.full(n, c0)), np.full(n, c0), 1e-12), "constants are reproduced", dict(h=h, n=n, rn=s["rn"]))
            p = np.random.default_rng(s["id"]).permutation(n); fp = F.density_filter(jnp.asarray(rho[p]), mesh_of(pts[p]), r, wt)
            emit(key + ":perm", close(fp, got[p], 1e-12), "independent of the numbering", dict(n=n)); 
            two = jax.jit(jax.vmap(f))(jnp.stack([jnp.asarray(rho), 2 * jnp.asarray(rho) + 1])); emit(key + ":vmap", close(two[0], got, 1e-12) and close(two[1], 2 * got + 1, 1e-12), "linear, under jit and vmap")
            if n <= 130:
                Wm = np.array(jax.jacobian(f)(jnp.asarray(rho))); v = np.arange(n) % 5 - 2.0; g = jax.grad(lambda z: jnp.asarray(v) @ f(z))(jnp.asarray(rho))
                d2 = ((np.array(s["pts"])[:, None] - np.array(s["pts"])[None]) ** 2).sum(-1)
                full = np.where(4 * d2 <= s["rn"] ** 2, W[wt](np.sqrt(d2), s["rn"] / 2), 0); full /= full.sum(1)[:, None]
                emit(key + ":jac", close(Wm, full, 1e-12) and close(g, v @ full, 1e-12), "derivative is the weight matrix", dict(e=err(Wm, full)))


def cells(emit, arg):
    import numpy as np, jax, jax.numpy as jnp, feax as fe
    from vlib import close, err
    from feax.gene import filters as F
    rng = random.Random(arg["seed"])
    for s, x in arg["items"]:
        if s["kind"] == "sens":
            g = fe.StructuredGrid(s["dims"]) if rng.random() < .5 else fe.StructuredGrid(s["dims"], spacing=(.5, 2., .25), origin=(1., -2., 3.))
            rm = s["rm"] / 4; f = F.create_sensitivity_filter(g, rm); rho, dc = np.array(s["rho"]) / 8, np.array(s["dc"], float); want = []
            for k, h in enumerate(x["hist"]):
                d, v, c = np.array(h, float).reshape(-1, 3).T; w = rm - np.sqrt(d); want.append((w @ v / 8) / (w @ c) / max(1e-3, rho[k]))
            got = f(np.array(s["act"]), rho, dc); emit(f"s:{s['id']}", close(got, want, 1e-12), "sensitivity averaged over the active neighbours", dict(s=s, e=err(got, np.array(want))))
            again = f(np.array(s["act"][:1]), rho[:1], dc[:1]); again2 = f(np.array(s["act"]), rho, dc); emit(f"s:{s['id']}:again", np.array_equal(np.asarray(again2), np.asarray(got)), "no memory of earlier calls")
        elif s["kind"] == "thr":
            v = 2.0 ** rng.choice([-8, 0, 3]); a = np.array(s["rho"], float) * v; t = s["num"] / s["den"]; arr = rng.choice([lambda z: z, jnp.asarray])(a)
            th = float(F.compute_volume_fraction_threshold(arr, t)); emit(f"t:{s['id']}", close(th, x["t"] / s["den"] * v, 1e-9), "threshold is the exact percentile", dict(s=s, got=th, want=x["t"] / s["den"] * v))
            b = 60 / v * s["den"] * 4; H = np.asarray(F.heaviside_projection(jnp.asarray(a), b, x["t"] / s["den"] * v)); tie = int((np.array(s["rho"]) * s["den"] == x["t"]).sum())
            emit(f"t:{s['id']}:vol", close(H.sum(), x["above"] + .5 * tie, 1e-9), "sharp projection keeps the values above the threshold", dict(s=s, got=H.sum()))
        else:
            L2 = np.log(2.0) / 2; K = np.array([t[0] for t in x["tab"]], float); want = np.array([t[1] / t[2] for t in x["tab"]]); order = np.random.default_rng(3).permutation(len(K))
            for beta in (1.0, 10.0, 1e-3, 64.0, 7.5):
                for th in (.5, 0.0, .3, -2.0):
                    rho = jnp.asarray(th + K * L2 / beta); key = f"p:{beta}:{th}"
                    g = F.heaviside_projection(rho, beta=beta, threshold=th); emit(key, close(g, want, 1e-11 * (1 + beta + abs(th) * beta)), "projection value", err(g, want))
                    G = np.asarray(F.heaviside_projection(rho[order], beta, th)); emit(key + ":mono", bool((np.diff(G[np.argsort(order)]) >= 0).all() and G.min() >= 0 and G.max() <= 1), "monotone, within [0, 1]")
                    dv = jax.vmap(jax.grad(lambda r: F.heaviside_projection(r, beta, th)))(rho); emit(key + ":grad", close(dv, 2 * beta * want * (1 - want), 1e-9), "projection derivative", err(dv, 2 * beta * want * (1 - want)))
                    B = jax.jit(jax.vmap(lambda r: F.heaviside_projection(r, beta, th)))(jnp.stack([rho, rho[::-1]]).reshape(2, -1)); emit(key + ":batch", close(B, np.stack([want, want[::-1]]), 1e-11 * (1 + beta + abs(th) * beta)), "projection value")
            d = np.asarray(F.heaviside_projection(jnp.asarray([0.5 + L2 * 3 / 10, .5 - L2 / 10]))); emit("p:default", close(d, [8 / 9, 1 / 3], 1e-12), "documented defaults beta=10, threshold=0.5", d)


def helm(emit, arg):
    import numpy as np, jax, jax.numpy as jnp, feax as fe
    from jax.experimental.sparse import BCOO
    from vlib import close, err
    from feax.gene import filters as F
    rng = random.Random(arg["seed"]); tight = fe.KrylovSolverOptions(solver="cg", tol=1e-13, atol=1e-14, maxiter=2000)
    for s, x in arg["items"]:
        d = len(s["pts"][0]); n = len(s["pts"]); nr = np.random.default_rng(s["id"]); h = rng.choice([1.0, .5, .1, 20.0]); off = rng.choice([0.0, 3.0])
        K = np.array(x["K"], float) / x["kden"] * h ** (d - 2); M = np.array(x["M"], float) / x["mden"] * h ** d; m = mesh_of(s["pts"], s["cells"], s["e"], h, off)
        for variant in ("plain", "default", "direct") + (("periodic",) if any(s["per"]) else ()):
            r = rng.choice([0.05, .5, 2.0, 7.0]) * h; key = f"h:{s['id']}:{s['e']}:{n}:{len(s['cells'])}:{variant}"; P = None; Pd = np.eye(n)
            if variant == "periodic":
                cl = [tuple(c) for c in x["cls"]]; ids = {c: k for k, c in enumerate(dict.fromkeys(cl))}; idx = np.array([[k, ids[c]] for k, c in enumerate(cl)]); P = BCOO((jnp.ones(n), jnp.asarray(idx)), shape=(n, len(ids))); Pd = np.zeros((n, len(ids))); Pd[idx[:, 0], idx[:, 1]] = 1
            op = dict(plain=tight, periodic=tight, default=None, direct=fe.DirectSolverOptions(solver="spsolve"))[variant]; tol = 1e-6 if variant == "default" else 1e-9
            A = Pd.T @ (r * r * K + M) @ Pd; op_m = Pd @ np.linalg.solve(A, Pd.T @ M)
            f = F.create_helmholtz_filter(m, r, P=P, solver_options=op); rho = nr.integers(-3, 9, n).astype(float)
            got = np.asarray(f(jnp.asarray(rho))); emit(key, close(got, op_m @ rho, tol), "solution of the discrete Helmholtz equation", dict(e=err(got, op_m @ rho), r=r, h=h))
            emit(key + ":const", close(f(jnp.full(n, .7)), np.full(n, .7), tol), "constants are reproduced")
            emit(key + ":mass", abs(M.sum(0) @ (got - rho)) < tol * 10 * (1 + np.abs(M.sum(0) @ np.abs(rho))), "the integral is preserved")
            v = nr.normal(size=n); g = jax.grad(lambda z: jnp.asarray(v) @ f(z))(jnp.asarray(rho)); emit(key + ":grad", close(g, op_m.T @ v, tol * 10), "derivative of the filter", dict(e=err(g, op_m.T @ v)))
            again = np.asarray(f(jnp.asarray(rho))); emit(key + ":again", close(again, got, 1e-12), "no memory of earlier calls")
            if variant == "plain":
                V = jax.vmap(f)(jnp.stack([jnp.asarray(rho), jnp.asarray(v)])); J = jax.jit(f)(jnp.asarray(v)); emit(key + ":vmap", close(V, np.stack([op_m @ rho, op_m @ v]), tol) and close(J, op_m @ v, tol), "under jit and vmap")
                emit(key + ":oneshot", close(F.helmholtz_filter(jnp.asarray(rho), m, r, None, tight), op_m @ rho, tol), "one-shot variant")


def integ(emit, arg):
    """every element type: constants, preserved integral, and the residual of the discrete equation in the verified assembly"""
    import numpy as np, jax.numpy as jnp, feax as fe
    from vlib import close, err
    from feax.gene import filters as F
    tight = fe.KrylovSolverOptions(solver="cg", tol=1e-13, atol=1e-14, maxiter=4000)
    for s, x in arg["items"]:
        n = len(s["pts"]); nr = np.random.default_rng(s["id"]); m = mesh_of(s["pts"], s["cells"], s["e"], .5); w = np.array(x["w"], float); r = .4; d = len(s["dims"])
        f = F.create_helmholtz_filter(m, r, solver_options=tight); key = f"i:{s['e']}:{n}:{len(s['cells'])}"
        rho = nr.integers(0, 9, n).astype(float); got = np.asarray(f(jnp.asarray(rho)))
        emit(key + ":const", got.shape == (n,) and close(f(jnp.full(n, .7)), np.full(n, .7), 1e-9), "constants are reproduced")
        emit(key + ":mass", bool(abs(w @ (got - rho)) < 1e-8 * (np.abs(w) @ rho)), "the integral is preserved", dict(got=w @ got, want=w @ rho))
        class Pb(fe.Problem):                                    # weak form written on the difference rho~ - rho: no parameter interpolation involved
            def get_tensor_map(self): return lambda g: r * r * g
            def get_mass_map(self): return lambda u, x: u
        class Ms(fe.Problem):
            def get_tensor_map(self): return lambda g: 0 * g
            def get_mass_map(self): return lambda u, x: u
        bc = fe.DirichletBCConfig([]); tp = fe.TracedParams(volume_vars=())
        a, b = (C(mesh=m, vec=1, dim=d, ele_type=s["e"]) for C in (Pb, Ms)); ra = np.asarray(fe.create_res_bc_function(a, bc.create_bc(a))(jnp.asarray(got), tp)); rb = np.asarray(fe.create_res_bc_function(b, bc.create_bc(b))(jnp.asarray(rho), tp))
        emit(key + ":eq", close(ra, rb, 1e-9), "solution of the discrete Helmholtz equation", err(ra, rb))
