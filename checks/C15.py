"""C15 automatic solver choice.  Specs: Resolve (option record x matrix class x storage view x installed back ends, exhaustively), MatClass (class of
integer matrices, block matrices of very different scale).  Outcomes are replayed through detect_matrix_property / resolve_* and end to end through create_solver."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))


def main(ck):
    rng = ck.rng(ck.seed); T = ck.thorough; R = {}
    def mat(n, kind):
        A = [[0] * n for _ in range(n)]
        for r in range(n):
            for c in range(r, n): A[r][c] = A[c][r] = rng.choice([-1, 0, 0, 1, 2])
            A[r][r] = rng.randint(1, 5) if kind != "sym" or rng.random() < .6 else rng.randint(-3, 0)
        if kind == "gen" and n > 1:
            r, c = rng.sample(range(n), 2); A[r][c] += rng.choice([-2, -1, 1, 3])
        return A
    S = [dict(blocks=[mat(rng.randint(1, 4), rng.choice(["spd", "spd", "sym", "gen"])) for _ in range(rng.randint(1, 3))]) for _ in range(1500 if T else 260)]
    for s in S: s["scales"] = [rng.choice([0, 0, 5, 11, -6]) for _ in s["blocks"]]
    def res(): R["res"] = ck.tlc("Resolve", dict(Emit="TRUE"), spec="Spec", invariants=["Admissible", "ExplicitKept", "Total", "Idempotent"]).records
    def cls(): R["cls"] = ck.tlc("MatClass", dict(Vals="{0, 1, 2}" if not T else "{0, 1, 2, 3, 5}", ScenFile='"s.json"', Emit="TRUE"), files={"s.json": S}, spec="Spec", invariants=["SafeClass"]).records
    ck.threads([res, cls], 2)
    ck.traces += len(R["res"]) + len(R["cls"]); ck.sample(R["res"][0]); ck.sample(R["cls"][-1])
    by = {}
    for x in R["res"]: by.setdefault((x["cfg"]["a"]["gpu"], tuple(sorted(x["cfg"]["a"]["have"]))), []).append(x)
    jobs = [("resolve", dict(gpu=g, have=list(h), items=v, seed=ck.seed)) for (g, h), v in sorted(by.items())]
    jobs += [("classes", dict(items=R["cls"][i::3])) for i in range(3)]
    jobs += [("solve", dict(have=list(h), items=[x for x in v if x["cfg"]["o"]["cview"] == "FULL"], lin=l, T=T)) for (g, h), v in sorted(by.items()) if not g for l in (True, False)]
    ck.pool(jobs, nproc=8)
    ck.assumptions += ["missing back ends are simulated by blocking the import of their module; the GPU back end by a stand-in for jax.default_backend and the cuDSS module (resolution only, nothing is solved there)", "matrices within the tolerance of symmetry (1e-8 of their row) count as symmetric"]


# ------------------------------------------------------------------------------------------------ workers
def block(have, gpu=False):
    """Make exactly these direct back ends importable (in this worker process only)."""
    import types
    for m in ("cholmod", "umfpack"):
        if m in have: continue
        pk = sys.modules.get("sksparse")
        sys.modules["sksparse." + m] = None
        if pk is not None and hasattr(pk, m): delattr(pk, m)
    if gpu:
        import jax
        jax.default_backend = lambda *a, **k: "gpu"
        if "cudss" in have:
            p, c, s = (types.ModuleType(n) for n in ("spineax", "spineax.cudss", "spineax.cudss.solver")); s.CuDSSSolver = object; p.cudss = c; c.solver = s
            p.__path__ = []; c.__path__ = []; sys.modules.update({"spineax": p, "spineax.cudss": c, "spineax.cudss.solver": s})


def resolve(emit, arg):
    import dataclasses, feax as fe
    block(arg["have"], arg["gpu"]); rng = random.Random(arg["seed"]); P = {p.value: p for p in fe.MatrixProperty}; V = {v: fe.MatrixView[v] for v in ("FULL", "UPPER", "LOWER")}
    pre = lambda x: x; x0 = lambda s: s
    for k, t in enumerate(arg["items"]):
        c, w = t["cfg"], t["out"]; o = c["o"]; key = f"r:{arg['gpu']}:{'+'.join(arg['have'])}:{o['fam']}:{o['solver']}:{o['lower']}:{o['cview']}:{c['p']}:{c['v']}"
        com = dict(verbose=rng.random() < .5, check_convergence=rng.random() < .5, convergence_threshold=rng.choice([.1, .01, 1e-6]))
        if o["fam"] == "direct":
            op = fe.DirectSolverOptions(solver=o["solver"], reuse_factorization=rng.random() < .5, sksparse_options=fe.SKSPARSEOptions(lower=o["lower"], order=rng.choice(["amd", "natural", "metis"]), vmap_method=rng.choice(["sequential", "expand_dims"])),
                                        cudss_options=fe.CUDSSOptions(matrix_type=rng.choice(["SPD", "SYMMETRIC"]), matrix_view=o["cview"], device_id=rng.randint(0, 3)), **com)
            f = lambda: fe.resolve_direct_solver(op, P[c["p"]], V[c["v"]])
        else:
            op = fe.KrylovSolverOptions(solver=o["solver"], tol=rng.choice([1e-5, 1e-12]), atol=rng.choice([0, 1e-9]), maxiter=rng.choice([7, 300]), restart=rng.choice([None, 3, 77]), preconditioner=rng.choice([None, pre]), x0_fn=rng.choice([None, x0]), use_jacobi_preconditioner=rng.random() < .5, jacobi_shift=rng.choice([0.0, 1e-3]), **com)
            f = lambda: fe.resolve_iterative_solver(op, P[c["p"]])
        before = dataclasses.replace(op)
        try: r = f()
        except (RuntimeError, ValueError) as ex: emit(key, not w["ok"], "refusal", dict(cfg=c, want=w, error=str(ex)[:150])); continue
        emit(key + ":method", w["ok"] and r.solver == w["method"], "method", dict(cfg=c, want=w, got=r.solver))
        if not w["ok"]: continue
        keep = {q.name for q in dataclasses.fields(op)} - {"solver", "sksparse_options", "cudss_options"}; lost = [n for n in sorted(keep) if getattr(r, n) != getattr(op, n)]
        emit(key + ":kept", not lost and type(r) is type(op), "user option kept", dict(cfg=c, lost=lost)); emit(key + ":pure", op == before, "options not modified in place")
        if o["fam"] == "direct":
            s, s0, d, d0 = r.sksparse_options, op.sksparse_options, r.cudss_options, op.cudss_options
            ok = s.order == s0.order and s.vmap_method == s0.vmap_method and d.device_id == d0.device_id
            ok = ok and (d.matrix_type == (d0.matrix_type if w["ctype"] == "keep" else fe.CUDSSMatrixType[w["ctype"].upper()])) and d.matrix_view.name == (o["cview"] if w["cview"] == "keep" else w["cview"])
            emit(key + ":backend-options", bool(ok), "user option kept", dict(cfg=c, got=[str(s), str(d)]))
            if w["method"] == "cholmod" and c["v"] != "FULL": emit(key + ":triangle", s.lower == w["lower"], "stored triangle", dict(cfg=c, got=s.lower))
            again = fe.resolve_direct_solver(r, P[c["p"]], V[c["v"]])
        else: again = fe.resolve_iterative_solver(r, P[c["p"]])
        emit(key + ":idem", again == r and f() == r, "resolution is stable")


def classes(emit, arg):
    import numpy as np, jax.numpy as jnp, feax as fe
    from feax.csr import CSRMatrix
    from jax.experimental.sparse import BCOO
    import scipy.linalg as sl, scipy.sparse as sp
    for k, t in enumerate(arg["items"]):
        A = sl.block_diag(*[np.array(b, float) * 10.0 ** s for b, s in zip(t["blocks"], t["scales"])]); n = len(A); key = f"c:{t['blocks']}:{t['scales']}"
        perm = np.random.default_rng(k).permutation(n); A = A[np.ix_(perm, perm)]
        want = t["cls"]; S = sp.csr_matrix(A + 0.0)
        pat = sp.csr_matrix(np.ones((n, n))) if k % 3 == 0 else sp.csr_matrix((A != 0) | (A.T != 0) | np.eye(n, dtype=bool))   # stored zeros
        ip, ix = pat.indptr, pat.indices; d = np.concatenate([A[r, ix[ip[r]:ip[r + 1]]] for r in range(n)]) if len(ix) else np.zeros(0)
        C = CSRMatrix(jnp.asarray(d), jnp.asarray(ip), jnp.asarray(ix), (n, n)); rr, cc = np.nonzero(np.ones((n, n)))
        q = np.random.default_rng(k).permutation(2 * n * n); dd = np.concatenate([A[rr, cc] * .25, A[rr, cc] * .75])[q]; B = BCOO((jnp.asarray(dd), jnp.asarray(np.stack([np.tile(rr, 2), np.tile(cc, 2)], 1)[q])), shape=(n, n))
        for nm, M in (("csr", C), ("bcoo", B)):
            got = fe.detect_matrix_property(M).value; emit(f"{key}:{nm}", got == want, "matrix class", dict(A=t["blocks"], scales=t["scales"], got=got, want=want, definite=t["pd"]))
        if want != "general":
            for v in ("UPPER", "LOWER"):
                keep = np.array([(c >= r if v == "UPPER" else c <= r) for r in range(n) for c in ix[ip[r]:ip[r + 1]]], bool); rows = np.repeat(np.arange(n), np.diff(ip))[keep]
                D = CSRMatrix(jnp.asarray(d[keep]), jnp.asarray(np.concatenate([[0], np.cumsum(np.bincount(rows, minlength=n))])), jnp.asarray(ix[keep]), (n, n))
                emit(f"{key}:{v}", fe.detect_matrix_property(D, matrix_view=fe.MatrixView[v]).value == want, "matrix class", dict(view=v))


def solve(emit, arg):
    """End to end: whatever create_solver accepts solves the stated system; class, view and back ends vary."""
    import io, contextlib, numpy as np, jax, jax.numpy as jnp, feax as fe
    block(arg["have"]); import fx
    mats = dict(spd=[[[4., 1, 0], [1, 4, 1], [0, 1, 4]], [[2e10, 0, 0], [0, 3, 1], [0, 1, 2]]], symmetric=[[[-4., 1, 0], [1, 4, 0], [0, 0, 3]]], general=[[[4., 1, 0], [-1, 4, 0], [0, 0, 4]], [[2e11, 0, 0], [0, 4, 1], [0, -2, 4]], [[2e11, 0, 0], [0, -4, 1], [0, -2, 4]]])
    pts, cells = fx.ref_mesh("QUAD4", (2, 2), random.Random(3)); mesh = fe.Mesh(np.array(pts, float) / 2, np.array(cells), ele_type="QUAD4"); done = {}
    for t in arg["items"]:
        c, w = t["cfg"], t["out"]; o = c["o"]
        if o["lower"] and o["solver"] != "cholmod" or o["solver"] == "cudss": continue
        if o["fam"] == "krylov" and set(arg["have"]) != {"spsolve"}: continue
        if c["p"] != "spd" and o["solver"] in ("cholmod", "cg"): continue                       # the user's explicit, inadmissible choice
        if o["solver"] == "cg" and c["v"] != "FULL" and not arg["T"]: continue
        for q, M in enumerate(mats[c["p"]]):
            if o["fam"] == "krylov" and np.max(np.abs(M)) > 1e3: continue                     # conditioning, not choice
            key = f"s:{arg['lin']}:{'+'.join(arg['have'])}:{o['fam']}:{o['solver']}:{o['lower']}:{c['p']}:{c['v']}:{q}"; Mj = jnp.array(M); sc = np.abs(np.array(M)).max(1)
            class Pb(fe.Problem):
                def get_tensor_map(self): return lambda g, p: 0 * g
                def get_mass_map(self): return lambda u, x, p: Mj @ u - p * jnp.asarray(sc) * (1 + x[0])
            prob = Pb(mesh=mesh, vec=3, dim=2, ele_type="QUAD4", matrix_view=c["v"]); full = Pb(mesh=mesh, vec=3, dim=2, ele_type="QUAD4")
            mkbc = lambda pr: fe.DirichletBCConfig([fe.DirichletBCSpec(location=lambda p: jnp.isclose(p[0], 0.), component=1, value=.5)]).create_bc(pr)
            bc, bcf = mkbc(prob), mkbc(full); tp = fe.TracedParams(volume_vars=(jnp.ones(len(pts)) * 2,))
            op = fe.DirectSolverOptions(solver=o["solver"], sksparse_options=fe.SKSPARSEOptions(lower=o["lower"])) if o["fam"] == "direct" else fe.KrylovSolverOptions(solver=o["solver"], tol=1e-13, atol=1e-13, maxiter=2000)
            g0 = fe.zero_like_initial_guess(prob, bc)
            try:
                with contextlib.redirect_stdout(io.StringIO()): S = fe.create_solver(prob, bc, op, linear=arg["lin"], traced_params=tp)
                u = np.asarray(S(tp, g0))
            except (ValueError, RuntimeError) as ex:
                emit(key, not w["ok"], "refusal", dict(cfg=c, want=w, error=str(ex)[:200])); continue
            emit(key + ":accepted", w["ok"], "refusal", dict(cfg=c, want=w))
            r = np.asarray(fe.create_res_bc_function(full, bcf)(jnp.asarray(u), tp)).reshape(-1, 3) / sc
            emit(key + ":solves", bool(np.isfinite(u).all() and np.abs(r).max() < 1e-7), "the chosen method solves the system", dict(cfg=c, M=M, resid=np.abs(r).max(0)))
            if q or o["fam"] == "krylov" or not arg["lin"]: continue
            for ad in ("auto", "umfpack", "spsolve", "cholmod", "gmres") if w["ok"] else ():
                if ad in ("umfpack", "cholmod") and ad not in arg["have"] or ad == "cholmod" and c["p"] != "spd": continue
                ao = fe.KrylovSolverOptions(solver="gmres", tol=1e-13, atol=1e-13) if ad == "gmres" else fe.DirectSolverOptions(solver=ad); bad = c["v"] != "FULL" and ad in ("umfpack", "spsolve")
                try:
                    with contextlib.redirect_stdout(io.StringIO()): S = fe.create_solver(prob, bc, op, adjoint_solver_options=ao, linear=True, traced_params=tp)
                    W = jnp.asarray(np.random.default_rng(q).normal(size=u.size)); d = jax.grad(lambda s: W @ S(fe.TracedParams(volume_vars=(s * tp.volume_vars[0],)), g0))(1.0); u0 = np.asarray(S(fe.TracedParams(volume_vars=(0 * tp.volume_vars[0],)), g0))
                    emit(f"{key}:adj:{ad}", (not bad) and bool(np.isclose(d, W @ (u - u0), rtol=1e-7)), "the adjoint method solves its system", dict(cfg=c, adj=ad, got=float(d), want=float(W @ (u - u0))))
                except (ValueError, RuntimeError) as ex: emit(f"{key}:adj:{ad}", bad, "refusal", dict(cfg=c, adj=ad, error=str(ex)[:200]))
