"""C06 no memory.  Spec: spec/Session.tla.  TLC checks the caching protocol exhaustively on a small universe and generates
long random sessions (build, solve, compiled solve, gradient, batch, failing call, assembling, releasing scratch, in any
order, over problems that share or do not share a sparsity pattern).  Each session is replayed in one process on real
problems; every answer is compared with what the inputs of that call alone determine (LinSys reference, validated against
TLC's exact record)."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fx

METHODS = ["umfpack", "cholmod", "spsolve", "gmres", "cg", "default"]


def scen(seed):
    rng = random.Random(seed * 17 + 6)
    L = fx.lin_scenario
    a = L(rng, "A", (3, 2), (1,), 5, spd=True, mass=True, ga=1)
    r2 = random.Random(seed * 17 + 7)
    b = L(r2, "B", (3, 2), (1,), 5, spd=True, mass=True, ga=1)
    c = dict(a, id="C", ga=0, A=[[2]], src=[1], k=[x + 1 for x in a["k"]])
    d = L(random.Random(seed * 17 + 8), "D", (2, 2), (1, 1), 5, mass=True, ga=1)
    S = [a, b, c, d]
    for s in S:       # free the loaded face so that the load's tangent matters
        nn = len(s["pts"]); fn = {n for f in s["faces"] for n in f["nodes"]}
        s["bc"] = [x for x in s["bc"] if (x[0] - 1) % nn not in fn] if len(s["vecs"]) == 1 or True else s["bc"]
    return S


def main(ck):
    base = dict(Follower="{1, 2, 4}", NV=3, Gap=0, Emit="FALSE", Keep="FALSE", Depth=0)
    inv = ["Memoryless", "FlagSound"]
    hist = []
    def small(np_, ms, mx):
        ck.tlc("Session", dict(base, NP=np_, Methods="{" + ", ".join(f'"{m}"' for m in ms) + "}", MaxSolvers=mx, NV=2), spec="Spec", invariants=inv)
    depth, num = (26, 16) if not ck.thorough else (40, 120)
    def sim():
        r = ck.tlc("Session", dict(base, NP=4, Methods="{" + ", ".join(f'"{m}"' for m in METHODS) + "}", MaxSolvers=5, Gap=3, Depth=depth, Keep="TRUE", Emit="TRUE"), spec="Spec", invariants=inv,
                   args=["-simulate", f"num={num}", "-depth", depth + 3, "-seed", ck.seed], workers=1)
        hist.extend(r.records)
    exact = {}
    S = scen(ck.seed)
    def lin():
        r = ck.tlc("LinSys", dict(ScenFile='"s.json"', Emit="TRUE"), files={"s.json": [dict(s, bc=[[d + 1, 1] for d in range(len(s["pts"]) * sum(s["vecs"]) - 2)]) for s in S]}, spec="Spec", invariants=["WellPosed", "Equilibrium", "Prescribed"], workers=2)
        for x in r.records: exact[x["id"]] = x
    ck.threads([(small, 2, ["umfpack", "gmres"], 2), (small, 1, ["umfpack", "cholmod"], 2), sim, lin], 4)
    ck.traces += len(hist)
    pairs = {(a["op"], b["op"]) for h in hist for a, b in zip(h, h[1:])}
    ck.cov["ordered_operation_pairs"] = len(pairs)
    ck.sample(hist[0])
    n = 8
    jobs = [("replay", dict(seed=ck.seed, hist=hist[i::n], exact=exact if i == 0 else None, tag=i)) for i in range(n)]
    jobs.insert(0, ("direct", dict(seed=ck.seed, n=400 if not ck.thorough else 6000)))
    ck.pool(jobs, nproc=9)


def params(R, v):
    """parameter set v of a problem: k, m, t, g (prescribed values), functional weights stay"""
    import numpy as np
    k, m, t, g = R.k.copy(), R.m.copy(), R.t.copy(), R.bv.copy()
    if v == 2: k = k[::-1] + 0.5
    if v == 3: k = k * 0.25 + 1; m = m + 0.75; t = t * 2.0 + 0.5; g = g + np.arange(len(g)) % 3 - 1.0
    return k, m, t, g


def replay(emit, a):
    import numpy as np, jax, jax.numpy as jnp, feax as fe, traceback
    from feax import NewtonOptions, assembler as asm
    from vlib import close, err
    S = scen(a["seed"])
    if a["exact"]:
        for s in S: fx.lin_validate(emit, dict(s, bc=[[d + 1, 1] for d in range(len(s["pts"]) * sum(s["vecs"]) - 2)]), a["exact"][s["id"]])
    def bcset(s, b):
        if b == 1: return s
        n = len(s["pts"]) * sum(s["vecs"]); cur = {x[0] for x in s["bc"]}
        rows = sorted((cur - set(sorted(cur)[::3])) | {min(set(range(1, n + 1)) - cur)})
        return dict(s, bc=[[d, (d * 5) % 4 - 1] for d in rows])
    SB = {(p, b): bcset(S[p - 1], b) for p in range(1, 5) for b in (1, 2)}
    REF = {k: fx.LinRef(s) for k, s in SB.items()}
    def ask(p, b, v):
        R = REF[p, b]; k, m, t, g = params(R, v)
        return R.solve(k, m, t, g)
    for hi, H in enumerate(a["hist"]):
        prob, ts, sols, memo = {}, {}, [], {}
        def P(p):
            if p not in prob: prob[p] = fx.lin_problem(S[p - 1])
            return prob[p]
        for i, o in enumerate(H):
            if o["op"] == "end": break
            key = f"{a['tag']}.{hi}.{i}:{o['op']}"
            try:
                if o["op"] == "build":
                    p = o["p"]; s = SB[p, o["b"]]; pr = P(p)
                    R = REF[p, o["b"]]; k, m, t, g = params(R, 1)
                    smp = fx.lin_params(s, pr, jnp.array(k), jnp.array(m), jnp.array(t * 0 if o["z"] else t))
                    bc = fx.lin_bc(s, pr)
                    f = fe.create_solver(pr, bc, fx.mk_options(o["m"]), newton_options=None if o["lin"] else NewtonOptions(tol=1e-11, rel_tol=1e-14, max_iter=8), linear=o["lin"],
                                         traced_params=smp, traced_structure=ts.get(p), return_solution=False)
                    sols.append(dict(o, f=f, bc=bc, s=s, R=R))
                elif o["op"] == "free":
                    pr = P(o["p"]); ts[o["p"]] = fe.TracedStructure.from_problem(pr, free_scratch=True)
                elif o["op"] == "assemble":
                    p = o["p"]; s = SB[p, 1]; pr = P(p); R = REF[p, 1]; k, m, t, g = params(R, o["v"])
                    tp = fx.lin_params(s, pr, jnp.array(k), jnp.array(m), jnp.array(t))
                    u = jnp.linspace(-1, 1, R.n)
                    K, r = R.KR(k, m, t)
                    J = np.asarray(fe.get_jacobian(pr, pr.unflatten_fn_sol_list(u), tp).todense())
                    res = np.concatenate([np.asarray(x).ravel() for x in fe.get_res(pr, pr.unflatten_fn_sol_list(u), tp)])
                    emit(key, close(J, K, 1e-10), "assembled tangent after this history", err(J, K))
                    emit(key, close(res, K @ np.asarray(u) + r, 1e-10), "assembled residual after this history", err(res, K @ np.asarray(u) + r))
                else:
                    q = sols[o["s"] - 1]; p = q["p"]; R = q["R"]; T = ts.get(p); pr = P(p)
                    def call(k, m, t, g, q=q, R=R, pr=pr):
                        g0 = jnp.zeros(R.n).at[jnp.array(R.bd)].set(g)
                        return lambda T: q["f"](fx.lin_params(q["s"], pr, k, m, t), g0, q["bc"].replace_vals(g), T)
                    J3 = lambda x: tuple(jnp.array(y) for y in params(R, x))
                    if o["op"] == "fail":
                        try: jax.block_until_ready(call(*(jnp.zeros(len(x)) for x in params(R, 1)[:3]), jnp.array(R.bv))(T))
                        except Exception: pass
                        continue
                    if o["op"] in ("solve", "jit"):
                        if o["op"] == "jit":
                            kk = (o["s"], "jit", T is None)
                            if kk not in memo: memo[kk] = jax.jit(lambda th, T: call(*th)(T))
                            got = memo[kk](J3(o["v"]), T)
                        else: got = call(*J3(o["v"]))(T)
                        w = ask(p, q["b"], o["v"])["u"]
                        emit(key, close(got, w, 1e-7), "answer depends on the inputs only", f"solver {q['m']} lin={q['lin']} problem {p} set {q['b']} v={o['v']}: " + err(got, w) + f" after {H[:i]}")
                    elif o["op"] == "grad":
                        kk = (o["s"], "grad", T is None)
                        c = jnp.array(R.c)
                        if kk not in memo: memo[kk] = jax.jit(jax.grad(lambda th, T: c @ call(*th)(T)))
                        G = memo[kk](J3(o["v"]), T); w = ask(p, q["b"], o["v"])
                        for nm, x in zip(("dk", "dm", "dt", "dg"), G):
                            emit(key, close(x, w[nm], 1e-6), "gradient depends on the inputs only", f"{nm} solver {q['m']} lin={q['lin']} problem {p} v={o['v']}: " + err(x, w[nm]) + f" after {H[:i]}")
                    elif o["op"] == "many":
                        kk = (o["s"], "many", T is None)
                        if kk not in memo: memo[kk] = jax.jit(jax.vmap(lambda th, T: call(*th)(T), in_axes=(0, None)))
                        th = jax.tree_util.tree_map(lambda *x: jnp.stack(x), *[J3(v) for v in o["vs"]])
                        got = np.asarray(memo[kk](th, T)); w = np.array([ask(p, q["b"], v)["u"] for v in o["vs"]])
                        emit(key, close(got, w, 1e-7), "batch depends on the inputs only", f"solver {q['m']} lin={q['lin']} problem {p} vs={o['vs']}: " + err(got, w) + f" after {H[:i]}")
            except Exception:
                emit(key, False, "no-exception", traceback.format_exc()[-1500:] + f" after {H[:i + 1]}")
                break


def direct(emit, a):
    """the direct solver functions themselves: sessions over patterns, values, right-hand sides, batch shapes and failures"""
    import numpy as np, jax, jax.numpy as jnp
    from vlib import close, err
    import scipy.sparse as sp
    try: from feax.solvers.direct import cholmod_solve, spsolve, umfpack_solve
    except ImportError: return
    import feax
    rng = np.random.default_rng(a["seed"])
    mats = []
    for pat in ([[1, 1, 0, 0], [1, 1, 1, 0], [0, 1, 1, 1], [0, 0, 1, 1]], [[1, 0, 1, 0], [0, 1, 1, 0], [1, 1, 1, 1], [0, 0, 1, 1]], [[1, 0, 0, 1], [0, 1, 1, 0], [0, 1, 1, 1], [1, 0, 1, 1]], [[1, 1], [1, 1]]):
        P = np.array(pat); n = len(P); vs = []
        for _ in range(3):
            B = rng.normal(size=(n, n)) * P; B = (B + B.T) / 2 + 4 * n * np.eye(n) * rng.uniform(0.5, 2); vs.append(B)
        C = sp.csr_matrix(P)
        mats.append((n, jnp.array(C.indptr), jnp.array(C.indices), [np.array([B[i, j] for i in range(n) for j in range(n) if P[i, j]]) for B in vs], vs))
    fs = dict(umfpack=lambda ns: (lambda b, v, o, c: umfpack_solve(b, v, o, c, cache_namespace=ns)), cholmod=lambda ns: (lambda b, v, o, c: cholmod_solve(b, v, o, c, cache_namespace=ns)), spsolve=lambda ns: spsolve)
    ops = 0
    log = []
    for _ in range(a["n"]):
        m = rng.choice(list(fs)); ns = rng.choice(["forward", "adjoint"]); f = fs[m](ns)
        n, off, col, vals, dense = mats[rng.integers(len(mats))]
        kind = rng.choice(["one", "rhs", "mat", "both", "fail"], p=[.35, .2, .15, .2, .1])
        k = int(rng.integers(1, 4)); i = rng.integers(3, size=max(k, 1)); b = rng.normal(size=(k, n))
        log.append(f"{m}/{ns}/{kind}/n{n}/{i.tolist()}")
        key = f"direct:{ops}:{log[-1]}"; ops += 1
        V = np.array([vals[j] for j in i])
        if kind == "fail":
            try: jax.block_until_ready(f(jnp.array(b[0]), jnp.zeros_like(V[0]) if m != "cholmod" else -jnp.array(V[0]), off, col))
            except Exception: pass
            continue
        if kind == "one": got, w = f(jnp.array(b[0]), jnp.array(V[0]), off, col), np.linalg.solve(dense[i[0]], b[0])
        elif kind == "rhs": got, w = jax.vmap(f, (0, None, None, None))(jnp.array(b), jnp.array(V[0]), off, col), np.array([np.linalg.solve(dense[i[0]], x) for x in b])
        elif kind == "mat": got, w = jax.vmap(f, (None, 0, None, None))(jnp.array(b[0]), jnp.array(V), off, col), np.array([np.linalg.solve(dense[j], b[0]) for j in i])
        else: got, w = jax.vmap(f, (0, 0, None, None))(jnp.array(b), jnp.array(V), off, col), np.array([np.linalg.solve(dense[j], x) for j, x in zip(i, b)])
        emit(key, close(got, w, 1e-9), "direct solve depends on the inputs only", err(got, w) + f" after {log[-6:]}")
