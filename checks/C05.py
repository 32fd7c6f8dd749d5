"""C05 Newton loop.  Spec: spec/Newton.tla.  TLC enumerates every behaviour of the loop against an adversarial residual
(bounded); each behaviour becomes a residual function (a table: value and slope at each point the loop may visit, NaN and
overflow included) and the real solver must end at the point, and with the outcome, of that behaviour - eagerly, compiled,
and with many behaviours batched together."""
import random, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

OPTS = [  # NComp, R0, TSet, Tol2, rel, MaxIter, MaxBt, Rho, MaxRej
    dict(NComp=1, R0=8, TSet="{9, 7, 5, 2, 1}", Tol2=2, RelNum=0, RelDen=1, MaxIter=3, MaxBt=2, Rho=2, MaxRej=2),
    dict(NComp=1, R0=8, TSet="{9, 7, 5, 3, 1}", Tol2=0, RelNum=3, RelDen=10, MaxIter=2, MaxBt=3, Rho=2, MaxRej=3),
    dict(NComp=1, R0=8, TSet="{7, 5, 2}", Tol2=2, RelNum=1, RelDen=100, MaxIter=4, MaxBt=3, Rho=4, MaxRej=2),
    dict(NComp=1, R0=8, TSet="{9, 5}", Tol2=100, RelNum=0, RelDen=1, MaxIter=2, MaxBt=2, Rho=2, MaxRej=2),
    dict(NComp=1, R0=8, TSet="{9, 5}", Tol2=2, RelNum=0, RelDen=1, MaxIter=0, MaxBt=2, Rho=2, MaxRej=2),
    dict(NComp=1, R0=8, TSet="{9, 5, 1}", Tol2=2, RelNum=0, RelDen=1, MaxIter=5, MaxBt=1, Rho=2, MaxRej=1),
    dict(NComp=2, R0=8, TSet="{9, 5, 1}", Tol2=3, RelNum=3, RelDen=10, MaxIter=2, MaxBt=2, Rho=2, MaxRej=2),
]


def main(ck):
    recs = {}
    def one(i, mode, o):
        c = {k: v for k, v in o.items()}
        if mode == "simple": c["MaxRej"] = min(2, c["MaxRej"])
        r = ck.tlc("Newton", dict(c, Mode=f'"{mode}"', Emit="TRUE"), spec="Spec", workers=1,
                   invariants=["NeverNonFinite", "FirstAdmissible", "BudgetKept", "ReportedConvergedIs", "StopsOnlyForAReason", "NoTies", "NoTieConv"], properties=["Monotone"])
        u = {}
        for x in r.records: u[repr(x)] = x
        recs[(i, mode)] = list(u.values())
    opts = OPTS + ([dict(NComp=1, R0=8, TSet="{9, 7, 5, 3, 2, 1}", Tol2=2, RelNum=3, RelDen=10, MaxIter=4, MaxBt=4, Rho=2, MaxRej=3)] if ck.thorough else [])
    ck.threads([(one, i, m, o) for i, o in enumerate(opts) for m in ("armijo", "simple") if m == "armijo" or i in (0, 2)], 6)
    live = dict(OPTS[5]); ck.tlc("Newton", dict(live, Mode='"armijo"', Emit="FALSE"), spec="Spec", properties=["Terminates"], workers=1)
    jobs = []
    rng = ck.rng(ck.seed)
    for (i, mode), R in sorted(recs.items()):
        ck.traces += len(R)
        cap = 700 if not ck.thorough else 6000
        if len(R) > cap: R = rng.sample(R, cap)
        jobs.append(("replay" if mode == "armijo" else "replay_host", dict(o=opts[i], recs=R, seed=ck.seed, i=i, thorough=ck.thorough)))
    ck.sample(recs[(0, "armijo")][7])
    jobs.append(("nonlinear_iterates", dict(seed=ck.seed)))
    ck.pool(jobs)


# ---- building the residual table of a behaviour
NP = 26     # table points per component

def table(o, rec):
    """returns start point, per component table (x, v, s), final point (or None, fallback allowed) per component"""
    n = o["NComp"]
    x = [float(100 * c) for c in range(n)]
    pts = [[] for _ in range(n)]
    cur = [float(o["R0"])] * n
    start = list(x)
    final = None; fb = None
    steps = rec["hist"]
    for k, h in enumerate(steps):
        d = [(16.0 if k % 2 == 0 else 7.0) * (1 + 0.25 * c) * (1 + 0.13 * k) for c in range(n)]
        for c in range(n): pts[c].append((x[c], cur[c], -cur[c] / d[c]))
        acc = h["j"]
        for jj, t in enumerate(h["t"]):
            al = o["Rho"] ** (-jj)
            if jj == acc: break
            for c in range(n):
                v = float("nan") if t["k"] == "nan" and c == 0 else (1e200 if t["k"] == "inf" else float(t["v"][c]))
                pts[c].append((x[c] + al * d[c], v, 1.0))
        if acc >= 0:
            al = o["Rho"] ** (-acc)
            x = [x[c] + al * d[c] for c in range(n)]
            cur = [float(v) for v in h["t"][acc]["v"]]
        else:
            fb = [x[c] + 1e-8 * d[c] for c in range(n)]
    if not steps or steps[-1]["j"] >= 0:
        for c in range(n): pts[c].append((x[c], cur[c], 1.0))
    for c in range(n):
        xs = sorted(p[0] for p in pts[c])
        if any(b - a < 1e-3 for a, b in zip(xs, xs[1:])): return None       # the walk revisits a point: not expressible
        assert len(pts[c]) <= NP
        while len(pts[c]) < NP: pts[c].append((1e6 + len(pts[c]), 1.0, 1.0))
    return start, pts, x


def build(n, comp=False, lin=0.0):
    import numpy as np, jax.numpy as jnp, feax as fe
    from feax.mesh import Mesh
    P, C = [], []
    for c in range(n):
        P += [(3.0 * c, 0.), (3.0 * c + 1, 0.), (3.0 * c, 1.)]; C.append([3 * c, 3 * c + 1, 3 * c + 2])
    mesh = Mesh(np.array(P), np.array(C), ele_type="TRI3")
    class Pr(fe.Problem):
        def get_tensor_map(self):
            def f(g, *tab):
                u = -g[0, 0]
                T = jnp.stack(tab)
                xs, vs, ss = T[:NP], T[NP:2 * NP], T[2 * NP:]
                i = jnp.argmin(jnp.abs(u - xs))
                r = vs[i] + ss[i] * (u - xs[i]) - lin * u
                return jnp.array([[-2.0 * r, 0.0]])
            return f
    prob = Pr(mesh, vec=1, dim=2, ele_type="TRI3")
    bc = fe.DirichletBCConfig([fe.DirichletBCSpec(lambda x, i: i % 3 != 0, 0, 0.0)]).create_bc(prob)
    return prob, bc


def tabs(recs, o):
    import numpy as np
    T, S, F, keep = [], [], [], []
    for k, r in enumerate(recs):
        t = table(o, r)
        if t is None: continue
        st, pts, fin = t
        a = np.array(pts)                        # (n, NP, 3)
        T.append(np.concatenate([a[:, :, 0].T, a[:, :, 1].T, a[:, :, 2].T]))       # (3NP, n)
        g = np.zeros(3 * o["NComp"]); g[::3] = st
        S.append(g); F.append(fin); keep.append(k)
    return np.array(T), np.array(S), np.array(F), keep


def nopts(o, raise_):
    import math
    from feax import NewtonOptions
    return NewtonOptions(tol=math.sqrt(o["Tol2"]) if o["Tol2"] else 0.0, rel_tol=o["RelNum"] / o["RelDen"], max_iter=o["MaxIter"], line_search_max_backtracks=o["MaxBt"],
                         line_search_c1=0.25, line_search_rho=1.0 / o["Rho"], raise_on_line_search_failure=raise_)


def replay(emit, a):
    import numpy as np, jax, jax.numpy as jnp, feax as fe
    from feax.solvers.newton import NewtonLineSearchError
    import fx
    o, recs = a["o"], a["recs"]
    T, S, F, keep = tabs(recs, o)
    n = o["NComp"]
    prob, bc = build(n)
    ts = fe.TracedStructure.from_problem(prob, free_scratch=False)
    tp = lambda t: fe.TracedParams(volume_vars=tuple(t[i] for i in range(3 * NP)), surface_vars=[])
    name = lambda k: f"o{a['i']}:" + recs[keep[k]]["status"] + ":" + "|".join("".join((("N" if t["k"] == "nan" else "I" if t["k"] == "inf" else ",".join(map(str, t["v"]))) + ";") for t in h["t"]) + f"@{h['j']}" for h in recs[keep[k]]["hist"])
    def judge(k, got, how):
        u = np.asarray(got)[::3]; st = recs[keep[k]]["status"]
        tol = 1e-5
        ok = np.all(np.isfinite(u)) and np.max(np.abs(u - F[k])) < tol
        emit(name(k), ok, f"ends at the iterate of the specified behaviour ({how})", f"{st}: ended at {u.tolist()}, specified {F[k].tolist()}; {recs[keep[k]]['hist']}")
        b = np.delete(np.asarray(got), np.s_[::3])
        if not np.all(b == 0): emit(name(k), False, "prescribed values kept", str(b))
    rng = random.Random(a["seed"])
    for method in (["umfpack", "gmres"] if a["i"] in (0, 6) or a["thorough"] else [["spsolve", "gmres", "umfpack"][a["i"] % 3]]):
        opt = fx.mk_options(method)
        mk = lambda raise_: fe.create_solver(prob, bc, opt, newton_options=nopts(o, raise_), return_solution=False, **(dict(symmetric_elimination=False) if a["i"] % 2 else {}))
        s = mk(True)
        f = jax.jit(lambda t, g: s(tp(t), g, traced_structure=ts))
        idx = list(range(len(keep)))
        for k in (idx if len(idx) < 150 else rng.sample(idx, 150)): judge(k, f(jnp.array(T[k]), jnp.array(S[k])), "compiled")
        B = jax.jit(jax.vmap(lambda t, g: s(tp(t), g, traced_structure=ts)))
        bs = 97 if len(idx) > 97 else max(1, len(idx))
        order = idx[:]; rng.shuffle(order)
        while len(order) % bs: order.append(order[len(order) % 5])
        for q in range(0, len(order), bs):
            sel = order[q:q + bs]
            G = np.asarray(B(jnp.array(T[sel]), jnp.array(S[sel])))
            for k, g in zip(sel, G): judge(k, g, "batched")
        by = {}
        for k in idx: by.setdefault((recs[keep[k]]["status"], recs[keep[k]]["it"]), []).append(k)
        small = [k for v in by.values() for k in v[:2]]
        quiet = mk(False)
        for k in small:
            st = recs[keep[k]]["status"]
            try:
                g = s(tp(jnp.array(T[k])), jnp.array(S[k])); raised = False
            except NewtonLineSearchError:
                raised = True
            emit(name(k), raised == (st == "lsfail"), "a failed line search is raised (and nothing else)", f"{st} raised={raised}")
            if not raised: judge(k, g, "eager")
            judge(k, quiet(tp(jnp.array(T[k])), jnp.array(S[k])), "eager, not raising")


def tie(o, rec):
    """a trial exactly as large as the current residual: whether it counts as a decrease is decided by round-off"""
    sq = lambda v: sum(x * x for x in v)
    cur = o["NComp"] * o["R0"] ** 2
    for h in rec["hist"]:
        if any(t["k"] == "fin" and sq(t["v"]) == cur for t in h["t"]): return True
        if h["j"] >= 0: cur = sq(h["t"][h["j"]]["v"])
    return False


def replay_host(emit, a):
    """loops with an extra residual: accept any decrease, stop quietly"""
    import numpy as np, jax, jax.numpy as jnp, feax as fe
    import fx
    o, recs = a["o"], [r for r in a["recs"] if not tie(a["o"], r)]
    T, S, F, keep = tabs(recs, o)
    n = o["NComp"]; lin = 0.75
    prob, bc = build(n, lin=lin)
    ts = fe.TracedStructure.from_problem(prob, free_scratch=False)
    tp = lambda t: fe.TracedParams(volume_vars=tuple(t[i] for i in range(3 * NP)), surface_vars=[])
    rng = random.Random(a["seed"])
    for method in ("umfpack", "gmres"):
        s = fe.create_solver(prob, bc, fx.mk_options(method), newton_options=nopts(o, True), extra_residual_fn=lambda u: lin * u, return_solution=False)
        idx = list(range(len(keep)))
        by = {}
        for k in idx: by.setdefault((recs[keep[k]]["status"], recs[keep[k]]["it"]), []).append(k)
        for k in [k for v in by.values() for k in rng.sample(v, min(len(v), 4 if not a["thorough"] else 30))]:
            got = np.asarray(s(tp(jnp.array(T[k])), jnp.array(S[k]), None, ts))[::3]
            emit(f"host:{method}:o{a['i']}:{k}", bool(np.max(np.abs(got - F[k])) < 1e-5), "ends at the iterate of the specified behaviour (extra residual)", f"{got} vs {F[k]} {recs[keep[k]]}")


def nonlinear_iterates(emit, a):
    """a real nonlinear elasticity-like problem: iterates observed through the iteration budget obey the step rule"""
    import numpy as np, jax, jax.numpy as jnp, feax as fe
    from feax import NewtonOptions
    from feax.mesh import Mesh
    import fx
    from vlib import close, err
    rng = random.Random(a["seed"])
    pts, cells = fx.box_cells((3, 3), rng)
    mesh = Mesh(np.array(pts, float), np.array(cells), ele_type="QUAD4")
    class P(fe.Problem):
        def get_tensor_map(self): return lambda g, k: k * (g + 4.0 * g * jnp.sum(g * g))
        def get_mass_map(self): return lambda u, x, k: 3.0 * jnp.sin(2 * u) - x[:2]
    prob = P(mesh, vec=2, dim=2, ele_type="QUAD4")
    bc = fe.DirichletBCConfig([fe.DirichletBCSpec(lambda x: jnp.isclose(x[0], 0., atol=1e-5), "all", 0.5), fe.DirichletBCSpec(lambda x: jnp.isclose(x[0], 3., atol=1e-5), 0, 2.0)]).create_bc(prob)
    tp = fe.TracedParams(volume_vars=(jnp.linspace(0.5, 2, len(cells)),), surface_vars=[])
    from feax import assembler as asm
    res = lambda u: np.asarray(asm.create_res_bc_parametric(prob)(u, tp, bc))
    g = fe.zero_like_initial_guess(prob, bc)
    for sym in (True, False):
        xs = [np.asarray(g)]
        for m in range(1, 7):
            s = fe.create_solver(prob, bc, fx.mk_options("umfpack"), newton_options=NewtonOptions(tol=1e-9, rel_tol=1e-12, max_iter=m), symmetric_elimination=sym, return_solution=False)
            xs.append(np.asarray(s(tp, g)))
        for i in range(6):
            r = res(xs[i]); rn = np.linalg.norm(r)
            if rn <= 1e-9 or rn / np.linalg.norm(res(xs[0])) <= 1e-12:
                emit(f"iter{i}:{sym}", np.array_equal(xs[i + 1], xs[i]), "stops when converged", ""); continue
            J = np.asarray(asm.create_J_bc_csr_parametric(prob, symmetric=sym)(jnp.array(xs[i]), tp, bc).todense())
            d = np.linalg.solve(J, -r)
            al, want = 1.0, None
            for _ in range(30):
                t = res(xs[i] + al * d); tn = np.linalg.norm(t)
                if np.isfinite(tn) and 0.5 * (tn ** 2 - rn ** 2) <= -1e-4 * al * rn ** 2: want = xs[i] + al * d; break
                al *= 0.5
            emit(f"iter{i}:{sym}", want is not None and close(xs[i + 1], want, 1e-8), "Newton step scaled by the first admissible factor", f"alpha={al} " + (err(xs[i + 1], want) if want is not None else ""))
