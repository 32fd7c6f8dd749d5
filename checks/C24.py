"""C24 cohesive interfaces and third-medium contact.  Spec: Cohesive (history machine: effective opening, irreversible maximum, branch; quasi-static pulling with unique exact equilibria), Medium
(Piola stress, tangent and regularisation of homogeneous / quadratic fields).  Replayed through feax.mechanics cohesive and tmc, and through solvers built once with the history flowing in."""
import math, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))


def gen(rng, T):
    S = []; R = rng.randint; m = 4 if T else 1
    for k in range(16 * m):
        vec = 2 + k % 2; n = R(1, 4); tot = 2 * n + R(0, 3); ids = list(range(1, tot + 1)); rng.shuffle(ids); den, pool = (5, [[3, 4], [-4, 3], [5, 0], [0, 5], [0, -5]]) if vec == 2 else (3, [[1, 2, 2], [2, -1, 2], [0, 0, 3], [-3, 0, 0], [-2, 2, 1]])
        ax = k % 4 == 0; N = [[den if a == k % vec else 0 for a in range(vec)]] * n if ax else [rng.choice(pool) for _ in range(n)]
        v = lambda a: [[R(-a, a) for _ in range(vec)] for _ in range(tot)]; us = []
        for _ in range(R(3, 7)):
            u = rng.choice(us)["v"] if us and rng.random() < .3 else v(rng.choice([0, 1, 3, 6]))
            if us and rng.random() < .25: u = [[2 * x for x in r] for r in us[-1]["v"]]
            us.append(dict(v=u, commit=int(rng.random() < .7)))
        S.append(dict(kind="pts", vec=vec, top=ids[:n], bot=ids[n:2 * n], N=N, den=den, bq=rng.choice([0, 1, 4, 4, 16]), gam=R(1, 12), sig=R(1, 6), u=us, wt=[R(1, 4) for _ in range(n)], ax=int(ax), axis=k % vec, law=rng.choice(["bil", "exp"])))
    for k in range(7 * m): S.append(dict(kind="pull", E=R(1, 6), H=2 + k % 2, gam=R(1, 5), sig=R(1, 4), w=[rng.choice([R(-4, 12), R(1, 8), R(8, 40), R(1, 20)]) for _ in range(7)]))
    for k in range(8 * m):
        x = [R(-5, 0)]
        for _ in range(R(1, 6)): x.append(x[-1] + R(1, 4))
        a, b = R(1, 3), R(1, 3); X = {(i, j): [3 * i + (R(-1, 1) if i else 0), 3 * j + R(-1, 1)] for i in range(a + 1) for j in range(b + 1)}; order = list(X); rng.shuffle(order); ix = {p: n for n, p in enumerate(order)}; extra = R(0, 2)
        quads = [[ix[i, j], ix[i + 1, j], ix[i + 1, j + 1], ix[i, j + 1]] for i in range(a) for j in range(b)]; quads = [q[c:] + q[:c] for q in quads for c in [R(0, 3)]]; quads = [q[::-1] if rng.random() < .4 else q for q in quads]
        al = rng.random() < .5; ids = list(range(len(order))); rng.shuffle(ids); ids = ids if al else ids[:R(1, len(ids))]
        S.append(dict(kind="wts", x=x, xy=[X[p] for p in order] + [[9, 9]] * extra, quads=quads, ids=ids, all=int(al)))
    for i, s in enumerate(S): s["id"] = i
    Q = []
    for k in range(12 * m):
        d = 2 if k % 3 else 3; ele = rng.choice(["QUAD9", "QUAD8", "TRI6", "QUAD4"]) if d == 2 else rng.choice(["HEX20", "TET10", "HEX8"])
        while 1:
            F = [[R(-1, 2) + (a == b) for b in range(d)] for a in range(d)]
            D = F[0][0] * F[1][1] - F[0][1] * F[1][0] if d == 2 else sum(F[0][i] * (F[1][(i + 1) % 3] * F[2][(i + 2) % 3] - F[1][(i + 2) % 3] * F[2][(i + 1) % 3]) for i in range(3))
            if D > 0: break
        mt = lambda: [[R(-2, 2) for _ in range(d)] for _ in range(d)]
        def sy():
            M = mt(); return [[2 * M[max(a, b)][min(a, b)] for b in range(d)] for a in range(d)]
        iso = k % 4 == 1; Hu = [sy() for _ in range(d)]
        if iso: Hu = [[[2 * (v + 1) * (a == b) for b in range(d)] for a in range(d)] for v in range(d)]
        Q.append(dict(id=k, d=d, ele=ele, F=F, V=mt(), G=mt(), Hu=Hu, Hv=[sy() for _ in range(d)], dims=[R(1, 2) for _ in range(d)], med=[], mu=R(1, 4), lam=R(1, 4), g0=rng.choice([.5, .25, 2.]), kr=rng.choice([.5, .125]), L=rng.choice([1., 2.])))
    return S, Q


def main(ck):
    import fx
    rng = ck.rng(ck.seed * 7 + 24); S, Q = gen(rng, ck.thorough)
    for q in Q:
        rr = random.Random(q["id"] + 5); P, C = fx.ref_mesh(q["ele"], q["dims"], rr)[:2]; q["pts"], q["cells"] = [[float(x) for x in p] for p in P], [[int(n) for n in c] for c in C]
        q["med"] = [int(rr.random() < .5) for _ in C]
        if q["id"] % 4 == 2: q["med"] = [1] * len(C)
    R = []
    ck.threads([lambda: R.append(("c", ck.tlc("Cohesive", dict(ScenFile='"s.json"', Emit="TRUE"), files={"s.json": S}, spec="Spec", invariants=["Shape", "Bounded", "WeightsAdd"], properties=["Irreversible"], workers=3))),
                lambda: R.append(("m", ck.tlc("Medium", dict(ScenFile='"s.json"', Emit="TRUE"), files={"s.json": [{k: q[k] for k in ("id", "F", "V", "G", "Hu", "Hv", "med")} for q in Q]}, spec="Spec", invariants=["AllOK"], workers=1)))], 2)
    R = dict(R); rec = {}
    for x in R["c"].records: rec.setdefault(x["id"], {})[x["k"]] = x
    mr = {x["id"]: x for x in R["m"].records}; ck.traces += len(rec) + len(mr); ck.sample(dict(pull=sum(x["kind"] == "pull" for y in rec.values() for x in y.values()), skipped=sum(x["kind"] == "skip" for y in rec.values() for x in y.values())))
    items = [(s, [rec[s["id"]][k] for k in sorted(rec[s["id"]])]) for s in S]; light = [x for x in items if x[0]["kind"] != "pull"]; pull = [x for x in items if x[0]["kind"] == "pull"]; meds = [(q, mr[q["id"]]) for q in Q]
    ck.pool([("hist", dict(items=light[i::2], seed=ck.seed + i)) for i in range(2)] + [("pulls", dict(items=pull[i::3], seed=ck.seed + i)) for i in range(3)] + [("medium", dict(items=meds[i::3], seed=ck.seed + i)) for i in range(3)], nproc=8)
    ck.assumptions += ["exponential law: openings and branches are exact, exp evaluated in floating point", "pulling steps with more than one equilibrium are left out"]


def jaxs():
    import jax, warnings, logging
    jax.config.update("jax_enable_x64", True); warnings.simplefilter("ignore"); logging.disable(logging.CRITICAL); return jax


def hist(emit, arg):
    jax = jaxs(); import numpy as np, jax.numpy as jnp
    from feax.mechanics import cohesive as co
    rng = random.Random(arg["seed"])
    for s, r in arg["items"]:
        key = f"{s['kind']}{s['id']}"
        if s["kind"] == "wts":
            w = np.asarray(co.compute_trapezoidal_weights(np.array(s["x"]) / 4.)); emit(key + ":t", np.allclose(w, np.array(r[0]["trap2"]) / 8., atol=1e-12), "trapezoidal weights", f"{w}")
            a, b = np.array(s["xy"], float).T; P = np.outer(a, [1, 2, 2]) + np.outer(b, [2, 1, -2]) + [3., -1, 2] if rng.random() < .6 else np.stack([a, b * 0 + 1, b], 1); f = 9. if P[0, 1] != 1 or len(set(P[:, 1])) > 1 else 1.
            w = np.asarray(co.compute_lumped_area_weights(s["ids"], P, s["quads"])); emit(key + ":l", w.shape == (len(s["ids"]),) and np.allclose(w, f * np.array(r[0]["lump8"]) / 8., atol=1e-10), "lumped area weights", f"{w}"); continue
        n = len(s["top"]); den = s["den"]; top, bot = np.array(s["top"]) - 1, np.array(s["bot"]) - 1; be = math.sqrt(s["bq"]) / 2; h, g = rng.choice([(1., 1.), (2. ** -10, 3.), (1e-4, 1e3)]); Gm, sg = s["gam"] * g, s["sig"] * g / h; wt = np.array(s["wt"], float); kw = {} if be == 1. and rng.random() < .5 else dict(beta=be)
        I = co.CohesiveInterface.from_axis(top, bot, wt, normal_axis=s["axis"], vec=s["vec"], **kw) if s["ax"] else co.CohesiveInterface(top, bot, wt, np.array(s["N"]) / float(den), s["vec"], **kw)
        En = I.create_energy_fn(co.bilinear_potential if s["law"] == "bil" else co.exponential_potential, Gamma=Gm, sigma_c=sg); dm = jnp.zeros(n); G = jax.grad(En); dc = Gm / (math.e * sg)
        if rng.random() < .5: En, G = jax.jit(En), jax.jit(G)
        def phi(d): return (min(Gm, sg * sg * d * d / (4 * Gm)) if s["law"] == "bil" else Gm * (1 - (1 + d / dc) * math.exp(-d / dc)))
        def slope(d): return ((0. if d >= 2 * Gm / sg else sg * sg / (2 * Gm)) if s["law"] == "bil" else Gm / dc ** 2 * math.exp(-d / dc))            # traction over opening
        for st, rec in zip(s["u"], r):
            kk = f"{key}.{rec['k']}"; u = np.array(st["v"], float) * h; uf = jnp.asarray(u.ravel()); pts = rec["r"]; q = 2. * den
            X = [math.sqrt(p["x"]) / q * h for p in pts]; M = [math.sqrt(p["m"]) / q * h for p in pts]; tol = 1e-9 * h * 100
            emit(kk + ":j", np.allclose(np.asarray(I.get_jump(uf)), u[top] - u[bot]), "jump", ""); op = np.asarray(I.get_opening(uf)); emit(kk + ":o", op.shape == (n,) and np.all(np.abs(op - X) < tol), "effective opening", f"{op} {X} beta={be}")
            dn, dt = (np.asarray(z) for z in I.get_opening_components(uf)); xn = [p["nj"] / den * h for p in pts]; xt = [math.sqrt(max(0, p["jj"] - (p["nj"] / den) ** 2)) * h for p in pts]; emit(kk + ":c", np.all(np.abs(dn - xn) < tol) and np.all(np.abs(dt - xt) < 1e-6 * h), "normal and tangential opening", f"{dn} {xn} / {dt} {xt}")
            e = [phi(x) if p["b"] != "unload" else phi(m_) * p["x"] / p["m"] for p, x, m_ in zip(pts, X, M)]; E = float(np.dot(e, wt)); got = float(En(uf, dm)); emit(kk + ":e", abs(got - E) <= 1e-7 * (abs(E) + 1e-6 * Gm), "energy of the current branch", f"{got} {E} law={s['law']} {[p['b'] for p in pts]} Gamma={Gm} sigma={sg}")
            edge = any(p["x"] and (p["x"] == p["m"] or s["law"] == "bil" and abs(x - 2 * Gm / sg) < 1e-9 * x) or p["nj"] == 0 and 0 for p, x in zip(pts, X))
            if not edge:
                T = np.zeros_like(u)
                for p, x, m_, w, a, b in zip(pts, X, M, wt, top, bot):
                    k = slope(x) if p["b"] != "unload" else 2 * phi(m_) / m_ ** 2; t = w * k * np.array(p["dir"]) / (4. * den * den) * h * (den if 0 else 1); t = w * k * h * np.array(p["dir"]) / (4. * den ** 2)
                    T[a] += t; T[b] -= t
                g_ = np.asarray(G(uf, dm)).reshape(u.shape); emit(kk + ":t", bool(np.all(np.abs(g_ - T) <= 1e-6 * (np.abs(T).max() + 1e-6 * sg))), "traction is the derivative of the energy", f"off {np.abs(g_ - T).max():.2e} of {np.abs(T).max():.2e} law={s['law']} {[p['b'] for p in pts]}")
            if st["commit"]: dm = jnp.maximum(dm, I.get_opening(uf))
        try: co.CohesiveInterface(top, bot, wt, np.zeros((n + 1, s["vec"])), s["vec"]); ok = False
        except ValueError: ok = True
        emit(key + ":n", ok, "normals of the wrong shape are refused", "accepted")


def pulls(emit, arg):
    jax = jaxs(); import numpy as np, jax.numpy as jnp, feax as fe
    from feax.mechanics import cohesive as co
    rng = random.Random(arg["seed"])
    for s, r in arg["items"]:
        key = f"pull{s['id']}"; w, H = rng.choice([1, 2, 3]), s["H"]; hb = 1; P = []; ix = {}; C = []
        for blk, (y0, y1) in enumerate(((0, hb), (hb, H))):
            for x in range(w + 1):
                for y in range(y0, y1 + 1): ix[blk, x, y] = len(P); P.append([float(x), float(y)])
            C += [[ix[blk, x, y], ix[blk, x + 1, y], ix[blk, x + 1, y + 1], ix[blk, x, y + 1]] for x in range(w) for y in range(y0, y1)]
        perm = list(range(len(P))); rng.shuffle(perm); Pn = np.zeros((len(P), 2)); Pn[perm] = P; mesh = fe.Mesh(Pn, np.array([[perm[n] for n in c] for c in C]), "QUAD4"); E = float(s["E"])
        class Pb(fe.Problem):
            def get_energy_density(self): return lambda g: .5 * E * jnp.sum((.5 * (g + g.T)) ** 2)
        pb = Pb(mesh=mesh, vec=2, dim=2, ele_type="QUAD4"); top = [perm[ix[1, x, hb]] for x in range(w + 1)]; bot = [perm[ix[0, x, hb]] for x in range(w + 1)]
        I = co.CohesiveInterface.from_axis(top, bot, co.compute_trapezoidal_weights(np.arange(w + 1.)), normal_axis=1, vec=2, beta=rng.choice([0., 1.])); En = I.create_energy_fn(co.bilinear_potential, Gamma=float(s["gam"]), sigma_c=float(s["sig"]))
        near = lambda a, v: (lambda p: jnp.isclose(p[a], v, atol=1e-6))
        mk = lambda U: fe.DCboundary.DirichletBCConfig([fe.DCboundary.DirichletBCSpec(location=near(1, 0.), component=1, value=0.), fe.DCboundary.DirichletBCSpec(location=near(1, float(H)), component=1, value=float(U)), fe.DCboundary.DirichletBCSpec(location=near(0, 0.), component=0, value=0.)]).create_bc(pb)
        hist = dict(m=jnp.zeros(w + 1)); extra = lambda u: jax.grad(lambda z: En(z, hist["m"]))(u); tp = fe.TracedParams(); name, opt = rng.choice([("umfpack", fe.DirectSolverOptions(solver="umfpack")), ("spsolve", fe.DirectSolverOptions(solver="spsolve")), ("cg", fe.KrylovSolverOptions(solver="cg", tol=1e-12, maxiter=2000, use_jacobi_preconditioner=True)), ("bicgstab", fe.KrylovSolverOptions(solver="bicgstab", tol=1e-12, maxiter=2000))])
        mksv = lambda: fe.create_solver(pb, mk(1.), solver_options=opt, newton_options=fe.NewtonOptions(tol=1e-9, rel_tol=1e-14, max_iter=60), traced_params=tp, linear=False, extra_residual_fn=lambda u: extra(u)); sv = mksv(); u = jnp.zeros(pb.num_total_dofs_all_vars); dm = jnp.zeros(w + 1)
        for x in r:
            if x["kind"] == "skip": continue
            U, d = x["U"][0] / x["U"][1], x["d"][0] / x["d"][1]; bc = mk(U); hist["m"] = dm; sv = sv if isinstance(opt, fe.KrylovSolverOptions) else mksv(); u = u.at[bc.bc_rows].set(bc.bc_vals); kk = f"{key}.{x['k']}:{name}"
            try: u2 = sv(tp, u, bc=bc).dofs
            except Exception as ex: emit(kk, False, "equilibrium under the current history", f"{type(ex).__name__} {str(ex)[-120:]}"); break
            eps = (U - d) / H; Y = Pn[:, 1]; tops = np.zeros(len(Pn), bool); tops[[perm[ix[b]] for b in ix if b[0] == 1]] = True; want = np.zeros((len(Pn), 2)); want[:, 1] = eps * Y + np.where(tops, d, 0.)
            got = np.asarray(u2).reshape(-1, 2); okk = bool(np.abs(got - want).max() < 1e-6 * max(1, abs(U))); emit(kk, okk, "equilibrium under the current history", f"step {x} width {w}: opening {np.asarray(I.get_opening_components(u2)[0])} expected {d}")
            if not okk: break
            el = fe.create_energy_fn(pb) if x["k"] == r[0]["k"] or 1 else None
            if x["k"] % 3 == 1: phi = 0. if x["b"] == "closed" else (s["gam"] if x["b"] == "failed" else None); ee = float(el(u2)); emit(kk + ":E", abs(ee - .5 * E * eps * eps * H * w) < 1e-7 * (1 + ee) and (phi is None or abs(float(En(u2, dm)) - phi * w) < 1e-9 * (1 + phi * w)), "bulk and cohesive energies", f"{ee} {float(En(u2, dm))}")
            u = u2; dm = jnp.maximum(dm, I.get_opening(u2)); m = x["m"][0] / x["m"][1]; emit(kk + ":m", bool(np.allclose(np.asarray(dm), max(m, d, 0.), atol=1e-6)), "irreversible history", f"{dm}")


def medium(emit, arg):
    jax = jaxs(); import numpy as np, jax.numpy as jnp, feax as fe
    from feax.mechanics import tmc
    from feax.assembler import get_res, get_jacobian
    rng = random.Random(arg["seed"])
    for q, r in arg["items"]:
        key = f"tmc{q['id']}:{q['ele']}"; d = q["d"]; P = np.array(q["pts"]); P = P / P.max(0) * np.array(q["dims"]); A = np.eye(d); A[0, 1] = rng.choice([0., .5]); P = P @ A.T; mesh = fe.Mesh(P, np.array(q["cells"]), q["ele"]); med = jnp.asarray(np.array(q["med"], float))
        ncor = {"QUAD9": 4, "QUAD8": 4, "QUAD4": 4, "TRI6": 3, "HEX20": 8, "HEX8": 8, "TET10": 4}[q["ele"]]; cen = P[np.array(q["cells"])[:, :ncor]].mean(1); cut = float(np.sort(cen[:, 0])[len(cen) // 2]) + 1e-9
        cl = np.asarray(tmc.classify_medium_cells(mesh, (lambda *c: c[0] > cut and c[-1] > -1e9), **({} if ncor == 4 and rng.random() < .5 else dict(n_corner_nodes=ncor)))); emit(key + ":cl", np.array_equal(cl, (cen[:, 0] > cut).astype(float)), "cells are classified by their centroid", f"{cl}")
        mk = lambda kr, L=q["L"]: tmc.ThirdMediumContact.create(mesh, med, mu=float(q["mu"]), lmbda=float(q["lam"]), gamma0=q["g0"], kr=kr, ele_type=q["ele"], ref_length=L, **({} if rng.random() < .5 else dict(dim=d)))
        pr, tp = mk(q["kr"]); V = P @ np.array(q["V"], float).T; u = P @ (np.array(q["F"], float) - np.eye(d)).T + rng.choice([0., .7]); J = float(r["J"]); ln = math.log(J); mu, lam = float(q["mu"]), float(q["lam"])
        JxW = np.asarray(pr.fes[0].JxW).reshape(len(q["cells"]), -1).sum(1); f = np.where(np.array(q["med"]) > 0, q["g0"], 1.); vol = float((JxW * f).sum()); vm = float((JxW * np.array(q["med"])).sum())
        R0 = np.asarray(jnp.concatenate([jnp.ravel(z) for z in get_res(pr, [jnp.asarray(u)], tp)])).reshape(-1, d); w = vol * (mu * r["FV"] + (lam * ln - mu) * r["CV"] / J); got = float((R0 * V).sum()); emit(key + ":P", abs(got - w) < 1e-8 * (1 + abs(w) + vol * mu * 10), "stress power of a homogeneous deformation", f"{got} {w}")
        Kt = get_jacobian(pr, [jnp.asarray(u)], tp); Gv = (P @ np.array(q["G"], float).T).ravel(); got = float(V.ravel() @ np.asarray(Kt @ jnp.asarray(Gv))); w = vol * (mu * r["GV"] + (mu - lam * ln) * r["CGC"] / J ** 2 + lam * r["CG"] * r["CV"] / J ** 2); emit(key + ":K", abs(got - w) < 1e-8 * (1 + abs(w) + 100 * vol), "tangent of a homogeneous deformation", f"{got} {w}")
        if q["ele"] not in ("QUAD4", "HEX8"):
            qd = lambda H: np.stack([.5 * np.einsum("ni,ij,nj->n", P, np.array(h, float), P) for h in H], 1); U, W = .01 * qd(q["Hu"]), qd(q["Hv"]); pz, tz = mk(0.)
            res = [np.asarray(jnp.concatenate([jnp.ravel(z) for z in get_res(a, [jnp.asarray(U)], b)])) for a, b in ((pr, tp), (pz, tz))]; got = float(((res[0] - res[1]) * W.ravel()).sum()); w = .01 * q["kr"] * lam * q["L"] ** 2 * vm * r["reg"] / d; emit(key + ":R", abs(got - w) < 1e-8 * (1 + abs(w)), "regularisation acts on the second derivatives of medium cells only", f"{got} {w}")
            iso = float(W.ravel() @ np.asarray(get_jacobian(pr, [jnp.zeros_like(jnp.asarray(U))], tp) @ jnp.asarray(U.ravel())) - W.ravel() @ np.asarray(get_jacobian(pz, [jnp.zeros_like(jnp.asarray(U))], tz) @ jnp.asarray(U.ravel()))); emit(key + ":RK", abs(iso - w) < 1e-8 * (1 + abs(w)), "tangent of the regularisation", f"{iso} {w}")
        psi = pr.get_energy_density(); F = np.array(q["F"], float); trC = (F * F).sum() + (1. if d == 2 else 0.); e = float(psi(jnp.asarray(F - np.eye(d)), mu, lam)); w = mu / 2 * trC - mu * ln + lam / 2 * ln ** 2; emit(key + ":psi", abs(e - w) < 1e-10 * (1 + abs(w)), "energy density", f"{e} {w}")
        for B in (np.diag([-1.] + [0.] * (d - 1)), np.diag([-2.] + [0.] * (d - 1)), np.diag([-1. + 1e-5] + [0.] * (d - 1)), -np.eye(d)):          # crushed, inverted and collapsed elements keep finite energy, stress and tangent
            v, g_, h_ = float(psi(jnp.asarray(B), mu, lam)), np.asarray(jax.grad(psi)(jnp.asarray(B), mu, lam)), np.asarray(jax.hessian(psi)(jnp.asarray(B), mu, lam)); emit(f"{key}:safe{B[0, 0]}{B[1, 1]}", bool(np.isfinite(v) and np.isfinite(g_).all() and np.isfinite(h_).all()), "the extended logarithm keeps collapsed elements finite", f"F = I + diag{np.diag(B).tolist()}: energy {v}, stress finite {np.isfinite(g_).all()}, tangent finite {np.isfinite(h_).all()}")
