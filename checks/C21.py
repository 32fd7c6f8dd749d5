"""C21 sparse derivative matrices.  Spec: SparseDiff (polynomial maps with exact Jacobians and Hessians, colourings, pattern unions, Galerkin products).  TLC's exact
matrices are replayed through feax.asd (Jacobian/Hessian producers, operator assembly, pattern algebra), and couplings of arbitrary pattern through whole solves."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))


def entries(rng, m, n, k, dup=True):
    es = [[rng.randint(1, m), rng.randint(1, n), rng.choice([1, -1, 2, 3, -5])] for _ in range(k)]
    if not dup:
        es = list({(e[0], e[1]): e for e in es}.values())
    return es


def main(ck):
    rng = ck.rng(ck.seed * 7 + 21); T = ck.thorough; S = []; R = {}
    for k in range(160 if T else 44):
        n = rng.choice([1, 2, 4, 7, 12]); m = n if k % 3 == 0 else rng.choice([1, 3, 6, 11]); terms = []
        st = k % 4                                            # chain, dense row, random, empty rows/columns
        for r in range(1, m + 1):
            if st == 3 and rng.random() < .4: continue
            for _ in range(n if st == 1 and r == 1 else rng.choice([1, 2, 3])):
                d = rng.choice([0, 1, 1, 2, 2, 3]); base = [min(n, max(1, r + rng.choice([-1, 0, 1])))] if st == 0 else []
                vs = (base + [rng.choice(base) if st == 0 and rng.random() < .5 else rng.randint(1, n) for _ in range(d)])[:3]
                terms.append(dict(r=r, c=rng.choice([1, -1, 2, -3]), vs=vs))
            if st == 1 and r == 1: terms += [dict(r=1, c=1, vs=[j, j]) for j in range(1, n + 1)]
        xs = [[0] * n, [rng.randint(-3, 3) for _ in range(n)], [rng.choice([0, 1, 2]) for _ in range(n)]]
        S.append(dict(id=len(S), kind="fun", n=n, m=m, terms=terms, xs=xs))
    for k in range(60 if T else 20):
        n = rng.choice([1, 3, 6, 10])
        S.append(dict(id=len(S), kind="merge", n=n, a=entries(rng, n, n, rng.choice([0, 1, n, 3 * n]), False), b=entries(rng, n, n, rng.choice([0, 1, n, 3 * n]), False)))
    for k in range(60 if T else 20):
        n = rng.choice([2, 4, 8]); nr = rng.choice([1, max(1, n // 2), n])
        p = [[r, (r - 1) % nr + 1 if k % 2 else rng.randint(1, nr), rng.choice([1, 1, -1, 2])] for r in range(1, n + 1)] + ([[1, nr, 1]] if k % 4 == 0 else [])
        S.append(dict(id=len(S), kind="galerkin", n=n, nr=nr, p=list({(e[0], e[1]): e for e in p}.values()), k=entries(rng, n, n, rng.choice([n, 2 * n, n * n]), False)))
    r = ck.tlc("SparseDiff", dict(ScenFile='"s.json"', Dim=3 if not T else 3, Emit="TRUE"), files={"s.json": S}, spec="Spec", invariants=["ProperIsExact", "ScenariosOK"], workers=4)
    rec = {x["id"]: x for x in r.records}
    items = [(s, rec[s["id"]]) for s in S]; ck.traces += len(items); ck.sample(items[0]); ck.sample(items[-1])
    ck.pool([("algebra", dict(items=items[j::5], seed=ck.seed + j)) for j in range(5)] + [("coupled", dict(seed=ck.seed + j, n=20 if T else 5)) for j in range(3)], nproc=8)
    ck.assumptions += ["functions are polynomials written with gathers, products and scatters; asdex's pattern detection may be a superset of the occurring variables (allowed)"]


def algebra(emit, arg):
    import numpy as np, jax, jax.numpy as jnp, scipy.sparse as sp
    from jax.experimental.sparse import BCOO
    from feax import asd
    from feax.csr import CSRMatrix, transpose_with_maps
    rng = random.Random(arg["seed"])
    def dense(A): return np.asarray(sp.csr_matrix((np.asarray(A.data), np.asarray(A.indices), np.asarray(A.indptr)), shape=A.shape).todense())
    def pset(A): c = sp.coo_matrix(A); return {(int(a) + 1, int(b) + 1) for a, b in zip(c.row, c.col)}
    def canon(A): return all(np.all(np.diff(np.asarray(A.indices)[A.indptr[r]:A.indptr[r + 1]]) > 0) for r in range(A.shape[0]))
    def as_pattern(es, m, n, how):
        D = np.zeros((m, n))
        for e in es: D[e[0] - 1, e[1] - 1] = 1
        c = sp.coo_matrix(D)
        if how == "dense": return D
        if how == "bcoo": return BCOO((jnp.asarray(c.data), jnp.asarray(np.stack([c.row, c.col], 1))), shape=(m, n))
        if how == "csr": 
            q = c.tocsr(); return CSRMatrix(jnp.asarray(q.data), jnp.asarray(q.indptr), jnp.asarray(q.indices), (m, n))
        if how == "unsorted":                                  # column indices of a row in any order
            q = c.tocsr(); ind, dat = q.indices.copy(), q.data.copy()
            for r in range(m): o = slice(q.indptr[r], q.indptr[r + 1]); ind[o] = ind[o][::-1]
            return sp.csr_matrix((dat, ind, q.indptr), shape=(m, n))
        return c.tocsc() if how == "csc" else c.tocsr()
    HOW = ["dense", "bcoo", "csr", "unsorted", "csc", "scipy"]
    for s, r in arg["items"]:
        key = f"{s['kind']}:{s['id']}"
        if s["kind"] == "fun":
            m, n, tm = s["m"], s["n"], s["terms"]
            def f(x):
                out = jnp.zeros(m)
                for t in tm:
                    v = jnp.asarray(float(t["c"]))
                    for j in t["vs"]: v = v * x[j - 1]
                    out = out.at[t["r"] - 1].add(v)
                return out
            def g(x): return jnp.sum(f(x))
            xs = [jnp.array(x, float) for x in s["xs"]]; J = [np.array(a, float).reshape(m, n) for a in r["jac"]]; H = [np.array(a, float) for a in r["hess"]]
            P = {tuple(e) for e in r["pat"]}; HP = {tuple(e) for e in r["hpat"]}
            dp = pset(asd.detect_jacobian_pattern(f, jnp.zeros(n))); emit(key + ":detect", P <= dp, "detected-pattern-sound", dict(missing=sorted(P - dp)[:3]))
            hp = pset(asd.detect_hessian_pattern(g, jnp.zeros(n))); emit(key + ":hdetect", HP <= hp, "detected-hessian-pattern-sound", dict(missing=sorted(HP - hp)[:3]))
            sup = [list(e) for e in sorted(P | {(rng.randint(1, m), rng.randint(1, n)) for _ in range(2)})]
            for mode in (None, "fwd", "rev"):
                how = rng.choice(HOW); srcs = [("detected", lambda: asd.sparse_jacobian_fn(f, xs[1], mode=mode)), (how, lambda: asd.sparse_jacobian_fn(f, pattern=as_pattern(sup, m, n, how), mode=mode))]
                for nm, mk in srcs if mode is None else [rng.choice(srcs)]:
                    jf, pc = mk(); jj = jax.jit(jf) if rng.random() < .4 else jf
                    for k, x in enumerate(xs):
                        A = jj(x); ok = A.shape == (m, n) and np.array_equal(dense(A), J[k]) and canon(A) and np.array_equal(np.asarray(A.indices), pc.indices) and np.array_equal(np.asarray(A.indptr), pc.indptr)
                        emit(f"{key}:{nm}:{mode}:{k}", ok, "jacobian-exact", dict(x=s["xs"][k], got=dense(A).tolist(), want=J[k].tolist()))
            hsup = [list(e) for e in sorted(HP | {(j, j) for j in range(1, n + 1) if rng.random() < .3})]; how = rng.choice(HOW)
            for nm, mk in [("detected", lambda: asd.sparse_hessian_fn(g, xs[0])), (how, lambda: asd.sparse_hessian_fn(g, pattern=as_pattern(hsup, n, n, how), symmetric=bool(s["id"] % 2)))]:
                hf, pc = mk(); hf = jax.jit(hf) if rng.random() < .4 else hf
                for k, x in enumerate(xs):
                    A = hf(x); emit(f"{key}:hess:{nm}:{k}", A.shape == (n, n) and np.array_equal(dense(A), H[k]) and canon(A), "hessian-exact", dict(x=s["xs"][k], got=dense(A).tolist(), want=H[k].tolist()))
        elif s["kind"] == "merge":
            n = s["n"]; ha, hb = rng.choice(HOW), rng.choice(HOW)
            a, b = sorted(s["a"]), sorted(s["b"]); d = asd.merge_csr_patterns(as_pattern(a, n, n, ha), as_pattern(b, n, n, hb))
            data = np.zeros(d["nnz"]); np.add.at(data, np.asarray(d["slots_a"]), [e[2] for e in a]); np.add.at(data, np.asarray(d["slots_b"]), [e[2] for e in b])
            A = CSRMatrix(jnp.asarray(data), d["indptr"], d["indices"], d["shape"]); rows = np.repeat(np.arange(n), np.diff(np.asarray(d["indptr"])))
            got = [[int(x) + 1, int(y) + 1] for x, y in zip(rows, np.asarray(d["indices"]))]
            emit(key + f":{ha}:{hb}", d["nnz"] == len(r["pat"]) and tuple(d["shape"]) == (n, n) and got == r["pat"] and np.array_equal(data, np.array(r["val"], float)), "union-exact", dict(got=got, want=r["pat"], ha=ha, hb=hb))
            Tm = transpose_with_maps(A, d["T_perm"], d["T_indptr"], d["T_indices"])
            emit(key + ":T", np.array_equal(dense(Tm), dense(A).T) and canon(Tm), "transpose-exact", dict(nnz=d["nnz"]))
        else:
            n, nr = s["n"], s["nr"]; ha, hb = rng.choice(HOW), rng.choice(HOW)
            P = np.zeros((n, nr)); K = np.zeros((n, n))
            for e in s["p"]: P[e[0] - 1, e[1] - 1] = e[2]
            for e in s["k"]: K[e[0] - 1, e[1] - 1] = e[2]
            pat = asd.reduced_operator_pattern(as_pattern(s["p"], n, nr, ha), as_pattern(s["k"], n, n, hb))
            emit(key + ":pat", pset(pat) == {tuple(e) for e in r["pat"]} and pat.shape == (nr, nr), "galerkin-pattern", dict(got=sorted(pset(pat)), want=r["pat"]))
            for mode in ("fwd", "rev"):
                asm = asd.operator_assembler(pat, mode=mode)
                for sc in (1.0, 3.0):                             # one assembler, several operators
                    A = (jax.jit(lambda z: asm(lambda v: z * (P.T @ (K @ (P @ v)))))(sc)) if rng.random() < .5 else asm(lambda v: sc * (P.T @ (K @ (P @ v))))
                    emit(f"{key}:{mode}:{sc}", np.array_equal(dense(A), sc * np.array(r["mat"], float)), "assembled-operator-exact", dict(got=dense(A).tolist(), want=r["mat"], sc=sc))


def coupled(emit, arg):
    """solves with an extra term of arbitrary pattern: the answer solves the coupled system; the mesh pattern covers the residual"""
    import numpy as np, jax.numpy as jnp, feax as fe
    import fx
    from feax import asd
    rng = random.Random(arg["seed"] * 3 + 1)
    class Pr(fe.Problem):
        def get_tensor_map(self): return lambda g, k: k * (g + 0.3 * jnp.trace(g) * jnp.eye(2)) if g.shape[0] == 2 else k * g
        def get_mass_map(self): return lambda u, x, k: 0.5 * k * u
    for c in range(arg["n"]):
        nx, ny, vec = rng.choice([1, 2, 3]), rng.choice([1, 2]), rng.choice([1, 2]); key = f"c:{arg['seed']}:{c}"
        pts, cells = fx.box_cells((nx, ny), rng); pts = np.array(pts, float); cells = [list(map(int, e)) for e in cells]
        mesh = fe.Mesh(pts, np.array(cells), ele_type="QUAD4"); pb = Pr(mesh, vec=vec, dim=2, ele_type="QUAD4"); N = pb.num_total_dofs_all_vars
        tp = fe.TracedParams(volume_vars=(jnp.array([rng.choice([1., 2., .5]) for _ in cells]),))
        v = asd.verify_jacobian_pattern(pb, tp); cp = asd.connectivity_pattern(pb)
        want = {(a * vec + p, b * vec + q) for ce in cells for a in ce for b in ce for p in range(vec) for q in range(vec)}
        emit(key + ":conn", {tuple(map(int, e)) for e in zip(*cp.nonzero())} == want and cp.shape == (N, N), "connectivity-pattern", dict(nx=nx, ny=ny))
        emit(key + ":verify", v["ok"] and v["num_missing"] == 0 and v["num_pattern"] == len(want) and v["num_detected"] <= len(want), "verify-pattern", {k: v[k] for k in v})
        cfg = fe.DirichletBCConfig([fe.DirichletBCSpec(location=lambda p: jnp.isclose(p[0], 0.), component="all", value=0.25)]); bc = cfg.create_bc(pb)
        rows = np.asarray(bc.bc_rows)
        pr = [(rng.randrange(N), rng.randrange(N), rng.choice([.5, 2., -.25])) for _ in range(rng.choice([1, 3, 2 * N]))]
        C = np.zeros((N, N))
        for a, b, w in pr: C[a, a] += abs(w); C[a, b] += w / 2
        load = np.array([rng.randint(-2, 2) for _ in range(N)], float); sym = rng.random() < .5
        if sym: C = C + C.T
        cub = np.array([rng.choice([0., .5]) for _ in range(N)])
        def extra(u): return jnp.asarray(C) @ u + jnp.asarray(cub) * u ** 3 - jnp.asarray(load)
        ia, ib = np.nonzero(C); wv = jnp.asarray(C[ia, ib])
        def extra_g(u): return jnp.zeros(N).at[ia].add(wv * u[ib]) + jnp.asarray(cub) * u ** 3 - jnp.asarray(load)
        from feax.assembler import get_jacobian
        import scipy.sparse as sp
        Jm = get_jacobian(pb, pb.unflatten_fn_sol_list(jnp.zeros(N)), tp); K = sp.csr_matrix((np.asarray(Jm.data), np.asarray(Jm.indices), np.asarray(Jm.indptr)), shape=(N, N)).toarray()
        u = np.zeros(N); u[rows] = 0.25; free = np.setdiff1d(np.arange(N), rows)
        for _ in range(60):
            rr = (K @ u + C @ u + cub * u ** 3 - load)[free]
            if np.abs(rr).max() < 1e-13: break
            u[free] -= np.linalg.solve((K + C + np.diag(3 * cub * u ** 2))[np.ix_(free, free)], rr)
        if not np.abs((K @ u + C @ u + cub * u ** 3 - load)[free]).max() < 1e-11: continue
        for nm, opt, fn in [("umfpack", fe.DirectSolverOptions(solver="umfpack"), extra_g), ("spsolve", fe.DirectSolverOptions(solver="spsolve"), extra), ("bicgstab", fe.KrylovSolverOptions(solver="bicgstab", tol=1e-12, maxiter=4000), extra_g), ("gmres", fe.KrylovSolverOptions(solver="gmres", tol=1e-12, maxiter=4000), extra)]:
            sv = fe.create_solver(pb, bc, solver_options=opt, newton_options=fe.NewtonOptions(tol=1e-10, rel_tol=1e-14, max_iter=60), traced_params=tp, linear=False, extra_residual_fn=fn, return_solution=False)
            for rep in range(2):
                u0 = np.zeros(N); u0[rows] = 0.25
                if rep: u0[free] = .1
                got = np.asarray(sv(tp, jnp.asarray(u0))).ravel()
                emit(f"{key}:{nm}:{rep}", got.shape == (N,) and np.abs(got - u).max() < 1e-7 * max(1, np.abs(u).max()), "coupled-solution", dict(err=float(np.abs(got - u).max()) if got.shape == (N,) else None, N=N, vec=vec, sym=sym))
