"""C19 linear buckling: the lowest positive load factors, their modes and derivatives.  Spec: Buckling (pencils with exactly known spectra grown by elementary operations; selection and
padding of the wanted modes).  TLC's exact factors, modes and sensitivities are replayed through create_linear_buckling_solver (dense, sparse, matfree) and generalized_eigh."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))


def gen(rng, kind):
    """blocks of one system.  Sizes straddle the Krylov basis size (30) and the extra-mode margins."""
    tot = {"tiny": rng.choice([1, 2, 3, 4, 5]), "small": rng.choice([6, 8, 12, 20, 29]), "edge": rng.choice([30, 31, 32, 33]), "large": rng.choice([45, 64, 100])}[kind]
    sp = rng.choice(["pos", "neg", "few", "rep", "mix", "none", "mix", "neg"])
    bl = []; left = tot; used = 0
    while left:
        n = min(left, rng.choice([1, 2, 3, 4, 5, 8])); left -= n; ops = []
        if n > 1:
            if rng.random() < .4: ops = [[i + 1, i, rng.choice([-1, 1])] for i in range(1, n)]
            else:
                for _ in range(rng.randint(0, 4)):
                    i, j = rng.sample(range(1, n + 1), 2); ops.append([i, j, rng.choice([-1, 1])])
        def mu():
            if sp == "pos": return rng.randint(1, 60)
            if sp == "neg": return rng.randint(1, 40) if rng.random() < .2 else -rng.randint(1, 900)
            if sp == "few": return rng.randint(1, 9) if rng.random() < .07 else rng.choice([0, 0, -rng.randint(1, 30)])
            if sp == "rep": return rng.choice([7, 7, 4, -7, 3])
            if sp == "none": return rng.choice([0, -1, -50, -3])
            return rng.randint(-40, 40)
        bl.append(dict(n=n, ops=ops, m=[mu() for _ in range(n)]))
    if sp != "none" and not any(v > 0 for q in bl for v in q["m"]): bl[0]["m"][0] = 5
    return dict(blocks=bl, want=rng.choice([1, 2, 3, 4, 6, min(17, tot + 2)]))


def main(ck):
    rng = ck.rng(ck.seed * 11 + 19); T = ck.thorough
    S = [gen(rng, k) for k in (["tiny"] * 14 + ["small"] * 14 + ["edge"] * 12 + ["large"] * 10) * (5 if T else 1)]
    INV = ["InverseGrows", "Symmetric", "EigenEquation", "KOrthonormal", "Sensitivity", "Complete"]
    R = []; ck.threads([lambda: R.append(ck.tlc("Buckling", dict(ScenFile='"s.json"', Emit="TRUE"), files={"s.json": S}, spec="Spec", invariants=INV, workers=4)),
                        lambda: ck.tlc("Buckling", dict(ScenFile='"s.json"', Emit="FALSE"), files={"s.json": [dict(blocks=[dict(n=2, ops=[[1, 2, a], [2, 1, c]], m=[p, q])], want=w) for a in (-2, -1, 1, 3) for c in (-1, 0, 2) for p in range(-3, 4) for q in range(-3, 4) for w in (1, 2, 3)]}, spec="Spec", invariants=INV, properties=["Finishes"], workers=3)], 2)
    items = sorted({x["n"]: x for x in max(R, key=lambda r: len(r.records)).records}.items()); ck.traces += len(items); ck.sample(dict(want=items[0][1]["want"], blocks=len(items[0][1]["blocks"])))
    items = [x for _, x in items]
    ck.pool([("buckle", dict(items=items[i::7], seed=ck.seed + i)) for i in range(7)], nproc=7)
    ck.assumptions += ["matfree is judged on simple spectra whose Krylov basis spans the system, or may refuse (BucklingConvergenceError)", "cudss needs a GPU and is not run"]


def buckle(emit, arg):
    import numpy as np, jax, jax.numpy as jnp, warnings, logging
    jax.config.update("jax_enable_x64", True); warnings.simplefilter("ignore"); logging.disable(logging.CRITICAL)
    import feax as fe
    from feax.csr import CSRMatrix
    from feax.solvers.eigen import generalized_eigh
    rng = random.Random(arg["seed"] * 3 + 1); nr = np.random.RandomState(arg["seed"])
    for it in arg["items"]:
        key = f"b:{it['n']}"; bs = it["blocks"]; n = sum(len(b["m"]) for b in bs); W = len(it["want"])
        K = np.zeros((n, n)); G = np.zeros((n, n)); pat = np.zeros((n, n), bool); off = []; o = 0
        for b in bs:
            k = len(b["m"]); s = slice(o, o + k); K[s, s] = b["k"]; G[s, s] = b["g"]; pat[s, s] = True; off.append(o); o += k
        m = np.concatenate([b["m"] for b in bs]).astype(float); Phi = np.zeros((n, n))
        for o, b in zip(off, bs): Phi[o:o + len(b["m"]), o:o + len(b["m"])] = b["phi"]
        nc = rng.choice([0, 0, 1, 3]); N = n + nc; perm = nr.permutation(N); free = np.sort(perm[:n]) if rng.random() < .7 else perm[:n]     # constrained dofs anywhere, free dofs in any order
        sK, sG = rng.choice([(1., 1.), (2. ** 30, 2. ** 20), (2. ** -12, 2. ** -20), (1e6, 1e3)])
        FK = np.zeros((N, N)); FG = np.zeros((N, N)); P = np.zeros((N, N), bool); ix = np.ix_(free, free)
        con = np.setdiff1d(np.arange(N), free); style = rng.choice(["identity", "garbage", "zero"])
        for c in con:
            if style == "identity": FK[c, c] = 1; P[c, c] = True
            if style == "garbage": q = rng.randrange(N); FK[c, c] = 3 * sK; FK[c, q] = FK[q, c] = 5 * sK; FG[c, q] = FG[q, c] = 7 * sG; P[c, q] = P[q, c] = P[c, c] = True
        FK[ix] = K * sK; FG[ix] = G * sG; P[ix] |= pat
        def csr(F, P):
            r, c = np.nonzero(P); return CSRMatrix(jnp.asarray(F[r, c]), jnp.asarray(np.concatenate([[0], np.cumsum(P.sum(1))]).astype(np.int32)), jnp.asarray(c.astype(np.int32)), F.shape)
        PG = P | (np.eye(N) > 0) if rng.random() < .5 else P
        MK, MG = csr(FK, P), csr(FG, PG); lamexp = np.array([sK / sG / w[0] if w[0] else np.inf for w in it["want"]])
        pos = np.sort(m[m > 0])[::-1]; simple = len(set(m)) == len(m); vecs = [Phi[:, off[w[1] - 1] + w[2] - 1] for w in it["want"] if w[0]]; groups = {}
        for i, w in enumerate(it["want"]):
            if w[0]: groups.setdefault(w[0], []).append(i)
        whole = {g for g, l in groups.items() if len(l) == int(np.sum(m == g))}
        tolmu = 1e-9 * max(1., np.abs(m).max())
        for solver in ("dense", "sparse", "matfree"):
            kk = f"{key}:{solver}"; kw = {}
            if solver == "matfree":
                if not simple or n > 20 or n < 2: continue
                kw = dict(num_matvecs=max(n, rng.choice([n, 30])), seed=rng.randrange(5))
            if solver == "sparse": kw = dict(num_matvecs=rng.choice([30, 30, 10, 40]), seed=rng.randrange(5)) if rng.random() < .6 else {}
            bf = fe.create_linear_buckling_solver(free, num_modes=W, solver=solver, **kw)
            try: lam, mo = bf(MK, MG); lam, mo = np.asarray(lam), np.asarray(mo); boom = None
            except Exception as e: boom = str(e)
            if boom is not None:
                okay = "BucklingConvergenceError" in boom and (not len(pos) and solver != "dense" or solver == "matfree")
                emit(kk, okay, "answers", f"{solver} n={n} want={W} positive={len(pos)}: {boom[-160:]}")
                if len(pos) or solver == "matfree" or not okay: continue
                bf = fe.create_linear_buckling_solver(free, num_modes=W, solver=solver, conv_tol=None)
                try: lam, mo = (np.asarray(z) for z in bf(MK, MG))
                except Exception as e: emit(kk + ":none", False, "answers", f"no positive mode with the check disabled: {str(e)[-160:]}"); continue
            fin = np.isfinite(lamexp); mug = np.where(np.isfinite(lam), sK / sG / lam, 0.); mue = np.where(fin, sK / sG / lamexp, 0.)
            emit(kk, lam.shape == (W,) and mo.shape == (W, N) and np.array_equal(np.isfinite(lam), fin) and not np.isnan(lam).any() and np.all(np.abs(mug - mue) <= tolmu), "lowest positive factors", f"{solver} n={n} want={W} scale={sK, sG}: mu got {mug[:8].round(6).tolist()} expected {mue[:8].tolist()}")
            if not (lam.shape == (W,) and mo.shape == (W, N)) or not np.array_equal(np.isfinite(lam), fin): continue
            emit(kk + ":con", np.all(mo[:, con] == 0) and np.all(mo[~fin] == 0), "constrained components vanish", f"{solver} max {np.abs(mo[:, con]).max(initial=0)}")
            V = mo[:, free][fin] * np.sqrt(sK); gram = V @ K @ V.T; ok = np.allclose(np.diag(gram), 1, atol=1e-8)
            if solver != "matfree" or simple: ok &= np.allclose(gram, np.eye(len(V)), atol=1e-6)
            emit(kk + ":norm", ok, "modes are K-normalized and distinct", f"{solver} n={n}: {np.abs(gram - np.eye(len(V))).max(initial=0):.1e}")
            res = [np.linalg.norm(mue[i] * K @ v + G @ v) / (np.linalg.norm(G @ v) + np.abs(m).max() * 1e-9) for i, v in enumerate(V)]
            emit(kk + ":eq", max(res, default=0) < 1e-6, "modes satisfy the eigen-equation", f"{solver} n={n}: {max(res, default=0):.1e}")
            sub = 0.
            for g in whole:
                a = V[groups[g]]; e = np.array([vecs[i] for i in groups[g]]); c = a @ K @ e.T; sub = max(sub, np.abs(c @ c.T - np.eye(len(a))).max())
            emit(kk + ":space", sub < 1e-6, "modes span the exact eigenspaces", f"{solver} n={n}: {sub:.1e}")
            # derivative of sum w_g lambda: exact outer products (whole groups only; padded modes weigh nothing or anything)
            wt = np.zeros(W); ex = {}
            for g in sorted(whole): ex[g] = rng.choice([1., 2., -3.]); wt[groups[g]] = ex[g]
            mode = rng.choice(["vjp", "grad"])
            if mode == "vjp":
                _, pb = jax.vjp(lambda a, b: bf(CSRMatrix(a, MK.indptr, MK.indices, MK.shape), CSRMatrix(b, MG.indptr, MG.indices, MG.shape))[0], MK.data, MG.data); gK, gG = pb(jnp.asarray(wt))
            else: gK, gG = jax.grad(lambda a, b: jnp.where(jnp.asarray(wt) != 0, jnp.asarray(wt) * bf(CSRMatrix(a, MK.indptr, MK.indices, MK.shape), CSRMatrix(b, MG.indptr, MG.indices, MG.shape))[0], 0.).sum(), (0, 1))(MK.data, MG.data)
            EK = np.zeros((N, N)); EG = np.zeros((N, N))
            for g in whole:
                for i in groups[g]: q = np.outer(vecs[i], vecs[i]) / sK; l = lamexp[i]; EK[ix] += ex[g] * l * q; EG[ix] += ex[g] * l * l * q
            r, c = np.nonzero(P); rg, cg = np.nonzero(PG); t = 1e-6
            good = lambda a, e: np.all(np.isfinite(np.asarray(a))) and np.abs(np.asarray(a) - e).max(initial=0) <= t * max(1e-300, np.abs(e).max(initial=0)) + (0 if len(e) and np.abs(e).max() else 1e-300)
            emit(kk + ":grad", good(gK, EK[r, c]) and good(gG, EG[rg, cg]), "derivatives of the factors", f"{solver} n={n} {mode} want={W} positive={len(pos)}: dK {np.abs(np.asarray(gK) - EK[r, c]).max(initial=0):.2e} of {np.abs(EK).max():.2e}, dKg {np.abs(np.asarray(gG) - EG[rg, cg]).max(initial=0):.2e} of {np.abs(EG).max():.2e}")
            # history: a jitted solver on new values of the same structure, twice; scaling K by 4 and Kg by 2 doubles every factor
            if solver != "matfree" and len(pos):
                jb = jax.jit(lambda a, b: bf(CSRMatrix(a, MK.indptr, MK.indices, MK.shape), CSRMatrix(b, MG.indptr, MG.indices, MG.shape))) if rng.random() < .5 else (lambda a, b: bf(CSRMatrix(a, MK.indptr, MK.indices, MK.shape), CSRMatrix(b, MG.indptr, MG.indices, MG.shape)))
                for f, gsc in ((4., 2.), (1., 8.), (1., 1.)):
                    try: l2 = np.asarray(jb(MK.data * f, MG.data * gsc)[0])
                    except Exception as e: emit(kk + ":again", False, "answers depend on the arguments only", str(e)[-160:]); break
                    emit(f"{kk}:again:{f}:{gsc}", np.array_equal(np.isfinite(l2), fin) and np.allclose(l2[fin], lamexp[fin] * f / gsc, rtol=tolmu / max(1e-300, mue[fin].min(initial=1e300)) + 1e-9), "answers depend on the arguments only", f"{solver} {l2[:4]} vs {(lamexp * f / gsc)[:4]}")
        a, b = -G, K; w, X = (np.asarray(z) for z in (generalized_eigh if rng.random() < .5 else jax.jit(generalized_eigh))(jnp.asarray(a), jnp.asarray(b)))
        ok = np.allclose(w, np.sort(m), atol=tolmu) and np.allclose(X.T @ b @ X, np.eye(n), atol=1e-7) and np.abs(a @ X - b @ X * w).max() <= 1e-6 * (1 + np.abs(a).max())
        emit(key + ":eigh", ok, "generalized_eigh returns the whole ascending B-orthonormal spectrum", f"n={n}")
