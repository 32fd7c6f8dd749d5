"""C04 gradients.  Spec: spec/LinSys.tla computes, in exact arithmetic, the solution, the adjoint and the sensitivities with
respect to volume, surface and boundary-value parameters; spec/SolvePipeline.tla enumerates the admissible configurations.
The replay differentiates the real solvers under these configurations.  Nonlinear and reduced solves are compared with the
implicit-function derivative of the (C01-checked) residual."""
import random, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fx
from importlib import util as _u
_sp = _u.spec_from_file_location("c03", os.path.join(os.path.dirname(os.path.abspath(__file__)), "C03.py"))


def main(ck):
    c03 = _u.module_from_spec(_sp); _sp.loader.exec_module(c03)
    rng = ck.rng(ck.seed * 131 + 4)
    L = fx.lin_scenario; S = []
    def add(*a, **k): S.append(L(rng, f"s{len(S)}", *a, **k))
    add((2, 1), (1,), 3, spd=True, mass=True, ga=1)
    add((2, 1), (2,), 4, spd=True)
    add((2, 1), (2,), 4, sym=True, ga=1)
    add((2, 1), (2,), 3, mass=True, ga=1)
    add((2, 1), (1, 1), 4, ga=1)
    add((1, 2), (2, 1), 3, mass=True)
    small = len(S)
    add((6, 5), (2,), 40, spd=True, mass=True, ga=1)
    add((5, 4), (2, 1), 40, mass=True, ga=1)
    if ck.thorough:
        for i in range(10): add((rng.randint(2, 6), rng.randint(2, 6)), rng.choice([(1,), (2,), (1, 1), (2, 1)]), 20, mass=True, spd=i % 3 == 0, sym=i % 3 == 1, ga=i % 2)
    for s in S[small:]: c03.fill(s, rng)
    exact, confs = {}, []
    def pipe():
        r = ck.tlc("SolvePipeline", dict(Emit="TRUE"), spec="Spec", invariants=["WellPosed", "Equilibrium", "PrescribedValues"], workers=4)
        confs.extend({repr(x): x for x in r.records}.values()); confs.sort(key=repr)
    def lin():
        r = ck.tlc("LinSys", dict(ScenFile='"s.json"', Emit="TRUE"), files={"s.json": S[:small]}, spec="Spec",
                   invariants=["WellPosed", "Equilibrium", "Prescribed", "Lagrange", "Symmetry"], workers=2)
        for x in r.records: exact[x["id"]] = x
    ck.threads([pipe, lin], 2)
    jobs = []
    adjs = {"spd": ["same", "spsolve", "umfpack", "cholmod", "cg", "gmres", "bicgstab", "directauto", "krylovauto"], "sym": ["same", "spsolve", "umfpack", "gmres", "directauto"], "gen": ["same", "spsolve", "umfpack", "gmres", "bicgstab", "directauto", "krylovauto"]}
    for i, s in enumerate(S):
        cls = "spd" if s["spd"] else ("sym" if s["sym"] else "gen")
        cc = []
        pool = [c for c in confs if c["cls"] == cls and c["guess"] != "zero"]
        rng.shuffle(pool)
        seen = set()
        for c in pool:
            adj = [x for x in adjs[cls] if (c["view"] == "FULL" or x in ("same", "cholmod", "cg", "gmres", "bicgstab", "krylovauto")) and (c["elim"] or x not in ("cholmod", "cg"))]
            c = dict(c, adj=rng.choice(adj), fn=rng.choice(["lin", "quad"]), mode=rng.choice(["grad", "jitgrad", "vjp"]), ts=rng.choice(["none", "arg", "freed"]), kind=rng.choice(["cell", "quad", "node"]))
            ks = [(a, c[a], b, c[b]) for a in ("path", "method", "view", "elim") for b in ("adj", "fn", "mode", "ts", "kind", "path", "elim") if a < b or b in ("adj", "fn", "mode", "ts", "kind")]
            if all(k in seen for k in ks) and not ck.thorough: continue
            seen |= set(ks); cc.append(c)
        cc.sort(key=lambda c: (c["method"] == "spsolve"))
        cc = cc[:(60 if ck.thorough else 15 if i < small else 8)]
        jobs.append(("replay", dict(s=s, e=exact.get(s["id"]), confs=cc)))
        ck.traces += len(cc)
    jobs.sort(key=lambda j: -len(j[1]["s"]["pts"]))
    jobs = [("nonlinear", dict(seed=ck.seed, which=w, thorough=ck.thorough)) for w in range(3)] + [("reduced", dict(seed=ck.seed, thorough=ck.thorough))] + jobs
    ck.sample(dict(scenario="s0", u=exact["s0"]["u"], D=exact["s0"]["D"], dk_limbs=exact["s0"]["dk"], dg=exact["s0"]["dg"]))
    ck.pool(jobs)
    ck.assumptions.append("reduced (periodic) path: volume and surface variables of symmetric problems only")


def replay(emit, a):
    import numpy as np, jax, jax.numpy as jnp, feax as fe, traceback
    from feax import NewtonOptions
    from vlib import close, err
    s = a["s"]; R = fx.LinRef(s)
    if a["e"] is not None: fx.lin_validate(emit, s, a["e"])
    base = R.solve()
    quad = R.solve(c=base["u"])
    cv = jnp.array(R.c)
    probs = {}
    for c in a["confs"]:
        key = f"{s['id']}:" + ",".join(f"{k}={c[k]}" for k in ("path", "method", "view", "elim", "guess", "adj", "fn", "mode", "ts", "kind"))
        try:
            pk = (c["view"], c["ts"] == "freed")
            if pk not in probs:
                p = fx.lin_problem(s, c["view"])
                probs[pk] = (p, fx.lin_params(s, p), fx.lin_bc(s, p), fe.TracedStructure.from_problem(p, free_scratch=c["ts"] == "freed"))
            prob, tp0, bc, ts = probs[pk]
            if c["ts"] == "none": ts = None
            opts = fx.mk_options(c["method"], c["view"])
            adj = None if c["adj"] == "same" else fx.mk_options(c["adj"], c["view"])
            solver = fe.create_solver(prob, bc, opts, adj, newton_options=NewtonOptions(tol=1e-11, rel_tol=1e-13, max_iter=12) if c["path"] == "newton" else None,
                                      linear=c["path"] == "linear", traced_params=tp0, symmetric_elimination=c["elim"], traced_structure=ts if c["ts"] == "freed" else None)
            nq = prob.fes[0].num_quads; sh = np.asarray(prob.fes[0].shape_vals)
            k0 = jnp.array(R.k)
            want = base if c["fn"] == "lin" else quad
            if c["kind"] == "quad": k0 = jnp.tile(k0[:, None], (1, nq))
            if c["kind"] == "node":     # a uniform nodal coefficient: compare through the chain rule with the quadrature one
                k0 = jnp.full((len(s["pts"]),), 2.0)
                w2 = R.solve(k=np.full(len(R.k), 2.0)); want = w2 if c["fn"] == "lin" else R.solve(k=np.full(len(R.k), 2.0), c=w2["u"])
            g0 = np.zeros(R.n) + (0.5 if c["guess"] == "any" else 0)
            if c["guess"] == "lifted" or c["path"] == "newton": g0[R.bd] = R.bv
            def f(th):
                t = th.get("t")
                tp = fx.lin_params(s, prob, th["k"], th["m"], t)
                sol = jnp.asarray(solver(tp, jnp.array(g0), bc.replace_vals(th["g"]), ts))
                return (cv @ sol) if c["fn"] == "lin" else 0.5 * sol @ sol
            th = dict(k=k0, m=jnp.array(R.m), g=jnp.array(R.bv))
            if len(R.t): th["t"] = jnp.array(R.t)
            if c["mode"] == "grad": G = jax.grad(f)(th)
            elif c["mode"] == "jitgrad": G = jax.jit(jax.grad(f))(th)
            else:
                _, vj = jax.vjp(f, th); G = jax.tree_util.tree_map(lambda x: x / 2.0, vj(jnp.array(2.0))[0])
            gk = np.asarray(G["k"])
            tol = 1e-6
            if c["kind"] == "quad": gk = gk.sum(1)
            if c["kind"] == "node":
                emit(key, close(gk.sum(), want["dk"].sum(), tol), "volume sensitivity (nodal, total)", err(gk.sum(), want["dk"].sum()))
                # a node's share: only the cells it belongs to contribute
                if np.allclose(gk, 0) and not np.allclose(want["dk"], 0): emit(key, False, "volume sensitivity (nodal)", "all zero")
            else:
                emit(key, close(gk, want["dk"], tol), "volume sensitivity", err(gk, want["dk"]))
            if s["mass"]: emit(key, close(G["m"], want["dm"], tol), "mass sensitivity", err(G["m"], want["dm"]))
            if len(R.t): emit(key, close(G["t"], want["dt"], tol), "surface sensitivity", err(G["t"], want["dt"]))
            emit(key, close(G["g"], want["dg"], tol), "boundary-value sensitivity", err(G["g"], want["dg"]))
        except Exception:
            emit(key, False, "no-exception", traceback.format_exc()[-1500:])


def implicit(prob, tp, bc, u, c, resfn, elim_rows):
    """dJ/dtheta by the implicit function theorem with a dense tangent of the residual function resfn(u, tp) (no BC)"""
    import numpy as np, jax, jax.numpy as jnp
    J = np.asarray(jax.jacfwd(lambda x: resfn(x, tp))(u))
    n = J.shape[0]; b = np.asarray(elim_rows); f = np.setdiff1d(np.arange(n), b)
    lam = np.zeros(n); lam[f] = np.linalg.solve(J[np.ix_(f, f)].T, np.asarray(c)[f])
    _, vj = jax.vjp(lambda t: resfn(u, t), tp)
    G = vj(jnp.array(-lam))[0]
    dg = np.asarray(c)[b] - J[np.ix_(f, b)].T @ lam[f]
    return G, dg


def nonlinear(emit, a):
    import numpy as np, jax, jax.numpy as jnp, feax as fe, traceback
    from feax import NewtonOptions
    from feax.mesh import Mesh
    from vlib import close, err
    rng = random.Random(a["seed"] * 7 + a["which"])
    dims = [(3, 2), (2, 3), (4, 2)][a["which"]]
    pts, cells = fx.box_cells(dims, rng)
    mesh = Mesh(np.array(pts, float), np.array(cells), ele_type="QUAD4")
    multi = a["which"] == 1
    right = lambda x: jnp.isclose(x[0], float(dims[0]), atol=1e-5)
    class P(fe.Problem):
        if not multi:
            def get_tensor_map(self): return lambda g, k, m: k * (1 + 0.3 * jnp.sum(g * g)) * (jnp.array([[2., 1.], [0.3, 2.]]) @ g)
            def get_mass_map(self): return lambda u, x, k, m: m * jnp.array([u[0] + 0.2 * u[0] ** 3 - 0.5 * u[1], u[1] + 0.1 * u[0] * u[1] - 1.0])
            def get_surface_maps(self): return [lambda u, x, t: t * (1 + 0.1 * u * u)]
        else:
            def get_weak_form(self):
                def wf(v, g, x, k, m):
                    u, p = v
                    return [m * (u + 0.1 * u ** 3 + 0.4 * p[0]), m * (p - 0.3 * u[:1] * u[1:]) - 0.7], [k * (1 + 0.2 * p[0]) * g[0], k * g[1]]
                return wf
            def get_surface_weak_forms(self): return [lambda v, x, t: [t * (1 + 0.1 * v[0]), t * v[1] * 0.2 + t]]
    def build(view="FULL"):
        if multi: return P([mesh, mesh], vec=[2, 1], dim=2, ele_type=["QUAD4"] * 2, gauss_order=[None] * 2, location_fns=[right])
        return P(mesh, vec=2, dim=2, ele_type="QUAD4", location_fns=[right])
    prob = build()
    left = lambda x: jnp.isclose(x[0], 0., atol=1e-5)
    bc = fe.DirichletBCConfig([fe.DirichletBCSpec(left, "all", lambda x: 0.3 * x[1]), fe.DirichletBCSpec(lambda x: jnp.isclose(x[1], 0., atol=1e-5), 0, 0.1)]).create_bc(prob)
    ns = len(prob.boundary_inds_list[0]); nq = np.asarray(prob.physical_surface_quad_points[0]).shape[1]
    tp = fe.TracedParams(volume_vars=(jnp.array([1 + 0.3 * (i % 3) for i in range(len(cells))]), jnp.array([0.5 + 0.1 * (i % 4) for i in range(len(pts))])),
                         surface_vars=[(jnp.array(np.linspace(-1, 1, ns * nq).reshape(ns, nq)),)])
    n = prob.num_total_dofs_all_vars
    c = jnp.array([((i * 7) % 11) - 5.0 for i in range(n)])
    flat = lambda u, t: jnp.concatenate([r.reshape(-1) for r in fe.get_res(prob, prob.unflatten_fn_sol_list(u), t)])
    Em = jnp.array(np.random.default_rng(3).normal(size=(n, n)) * (np.abs(np.subtract.outer(np.arange(n), np.arange(n))) <= 2)) * 0.1
    extra = lambda u: Em @ u + 0.05 * u ** 3
    g0 = fe.zero_like_initial_guess(prob, bc)
    no = NewtonOptions(tol=1e-12, rel_tol=1e-14, max_iter=25)
    confs = [("umfpack", "same", True, None, 0), ("spsolve", "gmres", False, None, 1), ("gmres", "same", True, None, 0), ("gmres", "umfpack", False, None, 1), ("directauto", "same", True, None, 1),
             ("bicgstab", "spsolve", True, None, 0), ("gmres", "same", True, extra, 0), ("umfpack", "same", True, extra, 0), ("spsolve", "same", False, extra, 0), ("gmres", "same", False, extra, 0)]
    if not a["thorough"]: confs = confs[a["which"]::3] + confs[6:8][:1 if a["which"] else 2]
    for m, ad, elim, ex, ts_ in confs:
        key = f"nonlinear{a['which']}:{m},{ad},elim={elim},extra={ex is not None},ts={ts_}"
        try:
            res = flat if ex is None else (lambda u, t: flat(u, t) + extra(u))
            ts = fe.TracedStructure.from_problem(prob, free_scratch=False) if ts_ else None
            solver = fe.create_solver(prob, bc, fx.mk_options(m), None if ad == "same" else fx.mk_options(ad), newton_options=no, traced_params=tp, symmetric_elimination=elim,
                                      **({} if ex is None else dict(extra_residual_fn=extra)))
            def f(t, b): return c @ jnp.asarray(solver(t, g0, bc.replace_vals(b), ts) if ts is not None else solver(t, g0, bc.replace_vals(b)))
            sol = jnp.asarray(solver(tp, g0))
            r = np.asarray(res(sol, tp)); fr = np.setdiff1d(np.arange(n), np.asarray(bc.bc_rows))
            emit(key, np.max(np.abs(r[fr])) < 1e-8 and close(np.asarray(sol)[np.asarray(bc.bc_rows)], bc.bc_vals, 1e-9), "nonlinear solution satisfies equilibrium", str(np.max(np.abs(r[fr]))))
            G, gb = jax.grad(f, argnums=(0, 1))(tp, bc.bc_vals)
            WG, wb = implicit(prob, tp, bc, sol, c, res, bc.bc_rows)
            for nm, x, y in (("volume", G.volume_vars[0], WG.volume_vars[0]), ("nodal volume", G.volume_vars[1], WG.volume_vars[1]), ("surface", G.surface_vars[0][0], WG.surface_vars[0][0]), ("boundary-value", gb, wb)):
                emit(key, close(x, y, 1e-5), f"nonlinear {nm} sensitivity", err(x, y))
        except Exception:
            emit(key, False, "no-exception", traceback.format_exc()[-1500:])


def reduced(emit, a):
    """periodic/reduced path: u = P q + guess-part; symmetric problem; gradients of volume and surface variables"""
    import numpy as np, jax, jax.numpy as jnp, feax as fe, traceback
    from feax.flat import pbc as fpbc
    from vlib import close, err
    import scipy.sparse as sp
    from jax.experimental.sparse import BCOO
    rng = random.Random(a["seed"] + 11)
    s = fx.lin_scenario(rng, "red", (4, 3), (2,), 6, spd=True, mass=True)
    s["faces"] = []
    for cc, nodes in fx.box_faces(2, s["pts"], s["cells"], 1, 3): s["faces"].append(dict(c=cc, nodes=nodes, t=rng.choice([1, 2, 3])))
    s["fax"], s["fval"] = 1, 3
    X = np.array(s["pts"]); nn = len(X); n = nn * 2
    # ties: nodes on x=4 copy nodes on x=0; prescribed: dofs of the nodes on y=0 except the tied pair of corners -> value 0
    # (the guess carries the macroscopic part and satisfies the prescribed values)
    macro = np.array([0.1 * X[d // 2][0] if d % 2 == 0 else -0.05 * X[d // 2][0] for d in range(n)])
    s["bc"] = [[2 * i + j + 1, macro[2 * i + j]] for i in range(nn) if X[i][1] == 0 for j in range(2)]
    R = fx.LinRef(s); K, r0 = R.KR(R.k, R.m, R.t)
    master = np.arange(nn)
    for i in range(nn):
        if X[i][0] == 4: master[i] = [j for j in range(nn) if X[j][0] == 0 and X[j][1] == X[i][1]][0]
    ind = [i for i in range(nn) if master[i] == i]; col = {i: q for q, i in enumerate(ind)}
    rows = np.repeat(np.arange(n), 1); cols = np.array([2 * col[master[d // 2]] + d % 2 for d in range(n)])
    P = BCOO((jnp.ones(n), jnp.array(np.stack([rows, cols], 1))), shape=(n, 2 * len(ind)))
    Pd = np.zeros((n, 2 * len(ind))); Pd[rows, cols] = 1
    qb = sorted({2 * col[master[i]] + j for i in range(nn) if X[i][1] == 0 for j in range(2)}); qf = np.setdiff1d(np.arange(Pd.shape[1]), qb)
    def ref(k, m, t, c):
        K, r = R.KR(k, m, t)
        Kr = Pd.T @ K @ Pd; rr = Pd.T @ (K @ macro + r)
        q = np.zeros(Pd.shape[1]); q[qf] = np.linalg.solve(Kr[np.ix_(qf, qf)], -rr[qf])
        u = Pd @ q + macro
        lq = np.zeros_like(q); lq[qf] = np.linalg.solve(Kr[np.ix_(qf, qf)].T, (Pd.T @ c)[qf]); lam = Pd @ lq
        return u, np.array([-lam[D] @ Ke @ u[D] for D, Ke in zip(R.D, R.Ke)]), np.array([-lam[D] @ Me @ u[D] for D, Me in zip(R.D, R.Me)]), np.array([-lam[D] @ (R.T + R.Fe @ u[D]) for D in R.FD])
    for view, m, ad in [("FULL", "cg", "same"), ("FULL", "umfpack", "same"), ("FULL", "spsolve", "cg"), ("FULL", "cholmod", "same"), ("FULL", "gmres", "umfpack")][: 5 if a["thorough"] else 4]:
        key = f"reduced:{view},{m},{ad}"
        try:
            prob = fx.lin_problem(s, view); tp = fx.lin_params(s, prob); bc = fx.lin_bc(s, prob)
            solver = fe.create_solver(prob, bc, fx.mk_options(m, view), None if ad == "same" else fx.mk_options(ad, view), linear=True, P=P, traced_params=tp)
            g0 = jnp.array(macro)
            c = jnp.array(R.c)
            def f(th): return c @ jnp.asarray(solver(fx.lin_params(s, prob, th["k"], th["m"], th["t"]), g0))
            th = dict(k=jnp.array(R.k), m=jnp.array(R.m), t=jnp.array(R.t))
            u = np.asarray(jnp.asarray(solver(tp, g0)))
            w = ref(R.k, R.m, R.t, R.c)
            emit(key, close(u, w[0], 1e-7), "reduced solution", err(u, w[0]))
            G = jax.grad(f)(th)
            for nm, x, y in (("volume", G["k"], w[1]), ("mass", G["m"], w[2]), ("surface", G["t"], w[3])):
                emit(key, close(x, y, 1e-6), f"reduced {nm} sensitivity", err(x, y))
        except Exception:
            emit(key, False, "no-exception", traceback.format_exc()[-1500:])
