"""C07 batched = one at a time.  Spec: spec/Batch.tla enumerates every nest of maps (which of matrix / right-hand side is
mapped at each level, sizes including one) and checks that the packing gives every member its own data.  Every program is
replayed on the direct solver functions, and a covering set on the full solvers (all methods, linear / Newton / reduced,
values and gradients, compiled inside, outside or not); members are compared with the LinSys reference or with separate
calls."""
import itertools, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fx


def main(ck):
    rng = ck.rng(ck.seed * 7 + 77)
    r = ck.tlc("Batch", dict(Sizes="{1, 2, 3}", MaxDepth=3 if ck.thorough else 2, Emit="TRUE"), spec="Spec", invariants=["MemberSeesItsOwn", "PayloadSize"])
    progs = sorted(r.records, key=repr)
    ck.tlc("Batch", dict(Sizes="{1, 2, 3, 4}", MaxDepth=3, Emit="FALSE"), spec="Spec", invariants=["MemberSeesItsOwn", "PayloadSize"])
    S = [fx.lin_scenario(rng, "A", (2, 2), (1,), 5, spd=True, mass=True, ga=0), fx.lin_scenario(rng, "B", (2, 1), (1,), 3, spd=True, mass=True, ga=1), fx.lin_scenario(rng, "D", (2, 1), (1, 1), 4, mass=True, ga=1)]
    for s in S:
        nn = len(s["pts"]); fn = {n for f in s["faces"] for n in f["nodes"]}
        s["bc"] = [b for b in s["bc"] if (b[0] - 1) % nn not in fn]
    ex = {}
    V = [dict(s, bc=[[d + 1, 1] for d in range(len(s["pts"]) * sum(s["vecs"]) - 2)]) for s in S]
    for x in ck.tlc("LinSys", dict(ScenFile='"s.json"', Emit="TRUE"), files={"s.json": V}, spec="Spec", invariants=["WellPosed", "Equilibrium", "Prescribed"]).records: ex[x["id"]] = x
    ck.traces += len(progs)
    meths = {0: ["umfpack", "cholmod", "spsolve", "cg", "gmres", "default", "bicgstab"], 1: ["umfpack", "cholmod", "cg", "default", "spsolve"], 2: ["umfpack", "spsolve", "gmres", "default", "bicgstab"]}
    cases = []
    for si in (0, 1, 2):
        for m in meths[si]:
            for lin in (True, False):
                for _ in range(4 if ck.thorough else 1 + (si == 0)):
                    axes = rng.choice(progs)
                    cases.append(dict(si=si, m=m, lin=lin, axes=axes, what=rng.choice(["solve", "solve", "grad"]), jit=rng.choice(["none", "in", "out"]), ts=rng.choice([0, 1]), rhs=rng.choice(["t", "g", "guess", "tg"]), vm=rng.choice(["broadcast_all", "expand_dims", "sequential"])))
    # the shared-matrix / many-right-hand-side corner of every direct method, and single-member batches
    for m in ("umfpack", "cholmod", "spsolve"):
        cases.append(dict(si=0, m=m, lin=True, axes=[dict(a=False, b=True, n=3)], what="solve", jit="out", ts=1, rhs="t", vm="broadcast_all"))
        cases.append(dict(si=0, m=m, lin=True, axes=[dict(a=True, b=False, n=1)], what="grad", jit="out", ts=0, rhs="t", vm="broadcast_all"))
        cases.append(dict(si=0, m=m, lin=True, axes=[dict(a=True, b=False, n=2), dict(a=False, b=True, n=3)], what="grad", jit="out", ts=0, rhs="t", vm="broadcast_all"))
    rng.shuffle(cases)
    n = 5
    jobs = [("direct", dict(seed=ck.seed, progs=progs))] + [("others", dict(seed=ck.seed, part=p)) for p in ("umfpack", "gmres", "spsolve", "red0", "red1")] + [("full", dict(S=S, V=V, ex=ex if i == 0 else None, cases=cases[i::n], seed=ck.seed, tag=i)) for i in range(n)]
    ck.sample(dict(program=progs[40], case=cases[0]))
    ck.pool(jobs, nproc=8)


def index_sets(axes):
    """outermost first; per flat member the index tuple"""
    return list(itertools.product(*[range(x["n"]) for x in axes]))


def nestmap(f, axes, flags):
    """wrap f(arg_1..arg_m) in the maps of the program, innermost last in axes; flags(x) -> in_axes tuple"""
    import jax
    for x in reversed(axes):
        f = jax.vmap(f, in_axes=flags(x))
    return f


def direct(emit, a):
    import numpy as np, jax, jax.numpy as jnp
    from vlib import close, err
    import scipy.sparse as sp
    import feax
    try: from feax.solvers.direct import cholmod_solve, spsolve, umfpack_solve
    except ImportError: return
    rng = np.random.default_rng(a["seed"])
    n = 4
    P = np.array([[1, 1, 0, 0], [1, 1, 1, 0], [0, 1, 1, 1], [0, 0, 1, 1]])
    C = sp.csr_matrix(P); off, col = jnp.array(C.indptr), jnp.array(C.indices)
    ij = [(i, j) for i in range(n) for j in range(n) if P[i, j]]
    vms = ["broadcast_all", "expand_dims", "sequential"]
    for pi, axes in enumerate(a["progs"]):
        for mi, (nm, f) in enumerate((("umfpack", umfpack_solve), ("cholmod", cholmod_solve), ("spsolve", spsolve))):
            vm = vms[(pi + mi) % 3]
            sa = tuple(x["n"] for x in axes if x["a"]); sb = tuple(x["n"] for x in axes if x["b"])
            B = rng.normal(size=sa + (n, n)); B = (B + np.swapaxes(B, -1, -2)) / 2 * P + 6 * np.eye(n)
            v = np.stack([B[..., i, j] for i, j in ij], -1); b = rng.normal(size=sb + (n,))
            F = nestmap(lambda b, v: f(b, v, off, col, vmap_method=vm), axes, lambda x: (0 if x["b"] else None, 0 if x["a"] else None))
            got = np.asarray(F(jnp.array(b), jnp.array(v)))
            sh = tuple(x["n"] for x in axes)
            want = np.empty(sh + (n,))
            for idx in index_sets(axes):
                ia = tuple(i for i, x in zip(idx, axes) if x["a"]); ib = tuple(i for i, x in zip(idx, axes) if x["b"])
                want[idx] = np.linalg.solve(B[ia], b[ib])
            key = f"direct:{nm}:{vm}:" + "/".join(("A" if x["a"] else "") + ("b" if x["b"] else "") + str(x["n"]) for x in axes)
            emit(key, close(got, want, 1e-9), "every member gets its own solution (direct solver)", err(got, want))


def full(emit, a):
    import numpy as np, jax, jax.numpy as jnp, feax as fe, traceback
    from feax import NewtonOptions
    from feax.solvers.options import DirectSolverOptions, SKSPARSEOptions
    from vlib import close, err
    if a["ex"]:
        for s in a["V"]: fx.lin_validate(emit, s, a["ex"][s["id"]])
    rng = np.random.default_rng(a["seed"] + a["tag"])
    for c in a["cases"]:
        s = a["S"][c["si"]]; R = fx.LinRef(s); axes = c["axes"]
        key = f"{s['id']}:{c['m']},lin={c['lin']},{c['what']},jit={c['jit']},ts={c['ts']},rhs={c['rhs']},{c['vm']}:" + "/".join(("A" if x["a"] else "") + ("b" if x["b"] else "") + str(x["n"]) for x in axes)
        try:
            pr = fx.lin_problem(s); bc = fx.lin_bc(s, pr)
            ts = fe.TracedStructure.from_problem(pr, free_scratch=False) if c["ts"] else None
            opt = fx.mk_options(c["m"])
            if c["m"] in ("umfpack", "spsolve", "cholmod"): opt = DirectSolverOptions(solver=c["m"], sksparse_options=SKSPARSEOptions(vmap_method=c["vm"], lower=False))
            so = fe.create_solver(pr, bc, opt, newton_options=None if c["lin"] else NewtonOptions(tol=1e-11, rel_tol=1e-14, max_iter=8), linear=c["lin"], traced_params=fx.lin_params(s, pr), return_solution=False)
            sa = tuple(x["n"] for x in axes if x["a"]); sb = tuple(x["n"] for x in axes if x["b"])
            th = dict(k=np.broadcast_to(R.k, sa + R.k.shape) * (1 + rng.random(sa + R.k.shape)))
            base = dict(t=R.t, g=R.bv, u0=np.zeros(R.n))
            rb = {"t": ["t"], "g": ["g"], "guess": ["u0"], "tg": ["t", "g"]}[c["rhs"]]
            if not len(R.t): rb = [x for x in rb if x != "t"] or ["g"]
            for nm in base: th[nm] = np.broadcast_to(base[nm], (sb if nm in rb else ()) + base[nm].shape) + (rng.integers(-2, 3, sb + base[nm].shape) * 0.5 if nm in rb and nm != "t" else 0.0)
            if "t" in rb: th["t"] = th["t"] + rng.random(sb + R.t.shape)
            names = ["k", "t", "g", "u0"]
            def f(k, t, g, u0):
                u0 = u0.at[jnp.array(R.bd)].set(g)
                def J(k, t, g):
                    return so(fx.lin_params(s, pr, k, None, t), u0, bc.replace_vals(g), ts)
                if c["what"] == "solve": return (J(k, t, g),)
                return jax.grad(lambda *z: jnp.array(R.c) @ J(*z), argnums=(0, 1, 2))(k, t, g)
            if c["jit"] == "in": f = jax.jit(f)
            F = nestmap(f, axes, lambda x: tuple((0 if x["a"] else None) if nm == "k" else (0 if (x["b"] and nm in rb) else None) for nm in names))
            if c["jit"] == "out": F = jax.jit(F)
            got = [np.asarray(x) for x in F(*[jnp.array(th[nm]) for nm in names])]
            sh = tuple(x["n"] for x in axes)
            for idx in index_sets(axes):
                ia = tuple(i for i, x in zip(idx, axes) if x["a"]); ib = tuple(i for i, x in zip(idx, axes) if x["b"])
                pick = lambda nm: th[nm][ib] if nm in rb else th[nm]
                w = R.solve(k=th["k"][ia], t=pick("t"), g=pick("g"))
                ws = [w["u"]] if c["what"] == "solve" else [w["dk"], w["dt"], w["dg"]]
                for nm, x, y in zip(["u"] if c["what"] == "solve" else ["dk", "dt", "dg"], got, ws):
                    ok = x.shape[:len(sh)] == sh and close(x[idx], y, 1e-6)
                    emit(key, ok, "batched member equals its own solve" if nm == "u" else "batched member equals its own gradient", f"member {idx} {nm}: " + err(x[idx] if x.shape[:len(sh)] == sh else x, y))
        except Exception:
            emit(key, False, "no-exception", traceback.format_exc()[-1500:])


def others(emit, a):
    """nonlinear Newton members with different numbers of iterations, extra batched structure, reduced path: against separate calls"""
    import numpy as np, jax, jax.numpy as jnp, feax as fe, traceback
    from feax import NewtonOptions
    from feax.mesh import Mesh
    from jax.experimental.sparse import BCOO
    from vlib import close, err
    rng = random.Random(a["seed"])
    pts, cells = fx.box_cells((3, 2), rng)
    mesh = Mesh(np.array(pts, float), np.array(cells), ele_type="QUAD4")
    class P(fe.Problem):
        def get_tensor_map(self): return lambda g, k: k * (1 + 3.0 * jnp.sum(g * g)) * g
        def get_mass_map(self): return lambda u, x, k: u - 1.0 + 0.5 * u ** 3
        def get_surface_maps(self): return [lambda u, x, t: t * (1 + 0.2 * u)]
    pr = P(mesh, vec=1, dim=2, ele_type="QUAD4", location_fns=[lambda x: jnp.isclose(x[0], 3., atol=1e-5)])
    bc = fe.DirichletBCConfig([fe.DirichletBCSpec(lambda x: jnp.isclose(x[0], 0., atol=1e-5), "all", 0.5)]).create_bc(pr)
    ns = len(pr.boundary_inds_list[0])
    K = jnp.array(np.random.default_rng(1).uniform(0.2, 3, (4, len(cells)))); K = K.at[2].mul(50.)
    T = jnp.array([[0.0], [3.0], [-8.0], [20.0]]) * jnp.ones((4, ns))
    G = jnp.array([0.5, -3.0, 6.0, 0.0])[:, None] * jnp.ones((4, len(bc.bc_rows)))
    mk = lambda k, t: fe.TracedParams(volume_vars=(k,), surface_vars=[(jnp.tile(t[:, None], (1, 2)),)])
    c = jnp.arange(len(pts)) * 0.3 - 1
    for m in ("umfpack", "gmres", "spsolve"):
        if m != a["part"]: continue
        for elim in ((True, False) if m == "umfpack" else (m == "gmres",)):
            try:
                so = fe.create_solver(pr, bc, fx.mk_options(m), newton_options=NewtonOptions(tol=1e-10, rel_tol=1e-13, max_iter=30), symmetric_elimination=elim, return_solution=False, traced_params=mk(K[0], T[0]))
                u0 = lambda g: jnp.zeros(len(pts)).at[bc.bc_rows].set(g)
                f = lambda k, t, g: so(mk(k, t), u0(g), bc.replace_vals(g))
                gf = jax.grad(lambda k, t, g: c @ f(k, t, g), argnums=(0, 1, 2))
                for nm, h in (("solve", jax.jit(f)), ("grad", jax.jit(gf))):
                    for axes in ((0, 0, 0), (0, None, None), (None, 0, None), (None, None, 0)):
                        z = [x if ax == 0 else x[1] for x, ax in zip((K, T, G), axes)]
                        got = jax.jit(jax.vmap(h, in_axes=axes))(*z)
                        for i in range(4):
                            w = h(*[x[i] if ax == 0 else x for x, ax in zip(z, axes)])
                            gi = jax.tree_util.tree_map(lambda x: x[i], got)
                            for x, y in zip(jax.tree_util.tree_leaves(gi), jax.tree_util.tree_leaves(w)):
                                emit(f"newton:{m},elim={elim},{nm},{axes}", close(x, y, 1e-6), "nonlinear member equals its own run", f"member {i}: " + err(x, y))
                        if m != "umfpack": break
            except Exception:
                emit(f"newton:{m},elim={elim}", False, "no-exception", traceback.format_exc()[-1500:])
    # reduced path
    if not a["part"].startswith("red"): return
    s = fx.lin_scenario(random.Random(5), "red", (3, 2), (1,), 4, spd=True, mass=True)
    X = np.array(s["pts"]); nn = len(X)
    master = [i if X[i][0] != 3 else [j for j in range(nn) if X[j][0] == 0 and X[j][1] == X[i][1]][0] for i in range(nn)]
    ind = [i for i in range(nn) if master[i] == i]; col = {i: q for q, i in enumerate(ind)}
    cols = np.array([col[master[i]] for i in range(nn)])
    Pm = BCOO((jnp.ones(nn), jnp.array(np.stack([np.arange(nn), cols], 1))), shape=(nn, len(ind)))
    s["bc"] = [[i + 1, 0.0] for i in range(nn) if X[i][1] == 0]
    R = fx.LinRef(s)
    pr = fx.lin_problem(s); bc = fx.lin_bc(s, pr)
    KB = jnp.array(np.random.default_rng(4).uniform(0.5, 2, (3, len(R.k)))); macro = jnp.array(np.random.default_rng(5).normal(size=(3, nn)) * (X[:, 1] != 0))
    for m in (("cg", "umfpack"), ("cholmod", "spsolve", "gmres"))[int(a["part"][-1])]:
        try:
            so = fe.create_solver(pr, bc, fx.mk_options(m), linear=True, P=Pm, traced_params=fx.lin_params(s, pr), return_solution=False)
            f = lambda k, g: so(fx.lin_params(s, pr, k), g)
            cv = jnp.array(R.c)
            gf = jax.grad(lambda k, g: cv @ f(k, g))
            for nm, h in (("solve", jax.jit(f)), ("grad", jax.jit(gf))):
                for axes in ((0, None), (None, 0), (0, 0)):
                    z = [x if ax == 0 else x[1] for x, ax in zip((KB, macro), axes)]
                    got = jax.vmap(h, in_axes=axes)(*z)
                    for i in range(3):
                        w = h(*[x[i] if ax == 0 else x for x, ax in zip(z, axes)])
                        emit(f"reduced:{m},{nm},{axes}", close(got[i], w, 1e-6), "reduced member equals its own run", f"member {i}: " + err(got[i], w))
                    if m in ("spsolve", "gmres"): break
        except Exception:
            emit(f"reduced:{m}", False, "no-exception", traceback.format_exc()[-1500:])
