"""C08 periodic and reduced solves.  Specs: spec/Periodic.tla (which degrees of freedom are tied: arbitrary lists of
pairings with chains, conflicts and circles; unit cells of any size) and spec/Laminate.tla (exact homogenized stiffness of
layered cells).  Every emitted behaviour is replayed on prolongation_matrix / periodic_bc_* / the reduced solver /
the homogenization solver."""
import itertools, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fx


def main(ck):
    rng = ck.rng(ck.seed * 13 + 8)
    inv = ["EveryDofHasOneIndependent", "CountOfIndependent", "TiesAreRespected", "TwiceOrCircularRejected", "CellRuleIsCongruence", "CellEntitiesMatch"]
    out = {}
    def t_list():
        r = ck.tlc("Periodic", dict(Mode='"list"', NPts=5, Shifts="{8, 10, 11, 12, 13}", MaxLen=2, Sz=1, Emit="TRUE"), spec="Spec", invariants=inv)
        out["list"] = sorted(r.records, key=repr)
    def t_deep():
        ck.tlc("Periodic", dict(Mode='"list"', NPts=4, Shifts="{9, 11, 12}", MaxLen=4 if ck.thorough else 3, Sz=1, Emit="FALSE"), spec="Spec", invariants=inv)
    def t_cell():
        r = ck.tlc("Periodic", dict(Mode='"cell"', NPts=1, Shifts="{}", MaxLen=1, Sz=3, Emit="TRUE"), spec="Spec", invariants=inv)
        out["cell"] = sorted(r.records, key=repr)
    def t_lam(d):
        vals = "{21, 13, 2, 41}" if d == 2 or ck.thorough else "{21, 13, 2}"
        r = ck.tlc("Laminate", dict(Dim=d, MaxLayers=3, Vals=vals, Emit="TRUE"), spec="Spec", invariants=["SolvesTheCell", "Symmetric", "Bounds"])
        out["lam%d" % d] = sorted((x for x in r.records if len(x["layers"]) > 1), key=repr)
    ck.threads([t_list, t_deep, t_cell, (t_lam, 2), (t_lam, 3)], 5)
    lists = out["list"]
    good = [x for x in lists if x["ok"]]; bad = [x for x in lists if not x["ok"]]
    chains = [x for x in good if len({(t["lo"], t["hi"], t["d"]) for t in x["list"]}) == 2 and any(r != i for i, r in enumerate(x["root"]))]
    n = 4000 if ck.thorough else 150
    # prefer lists with chains (a master that is itself a slave)
    def chained(x):
        sl = {p + t["d"] for t in x["list"] for p in range(t["lo"], t["hi"] + 1)}
        return any(p in sl for t in x["list"] for p in range(t["lo"], t["hi"] + 1))
    ch = [x for x in chains if chained(x)]; rest = [x for x in good if not chained(x)]
    for l in (ch, rest, bad): rng.shuffle(l)
    lists = ch[:n] + rest[:n // 2] + bad[:n // 2]
    cells = out["cell"]; lam = {d: out["lam%d" % d] for d in (2, 3)}
    for d in lam: rng.shuffle(lam[d])
    L = lam[2][: 400 if ck.thorough else 36] + lam[3][: 150 if ck.thorough else 15]
    ck.traces += len(lists) + len(cells) + len(L)
    ck.sample(lists[0]); ck.sample(L[0])
    l2 = [x for x in L if x["dim"] == 2]; l3 = [x for x in L if x["dim"] == 3]
    jobs = [("pairs", dict(lists=lists[i::2], seed=ck.seed + i)) for i in range(2)]
    jobs += [("cells", dict(cells=cells[i::2], seed=ck.seed + i)) for i in range(2)]
    jobs += [("laminate", dict(L=l2, seed=ck.seed)), ("laminate", dict(L=l3[::2], seed=ck.seed)), ("laminate", dict(L=l3[1::2], seed=ck.seed)), ("reduced", dict(seed=ck.seed, thorough=ck.thorough)), ("cyclic", dict(seed=ck.seed))]
    ck.assumptions += ["periodic cells have matching nodes on opposite sides", "elastic laminates with layers aligned to the mesh have an exact finite-element solution"]
    ck.pool(jobs, nproc=8)


def box_idx(n):
    """cells of the box as indices into the lexicographic node list"""
    pts, cells = fx.box_cells(tuple(n))
    lex = {q: i for i, q in enumerate(itertools.product(*[range(k + 1) for k in n]))}
    return [[lex[tuple(pts[i])] for i in c] for c in cells]


def dense(P):
    import numpy as np
    D = np.zeros(P.shape); idx = np.asarray(P.indices)
    if idx.size and (idx.min() < 0 or (idx >= np.array(P.shape)).any()): return None
    np.add.at(D, (idx[:, 0], idx[:, 1]), np.asarray(P.data))
    return D


def partition_ok(P, label):
    """rows of P are unit vectors; two rows coincide exactly when their labels do; every column is used"""
    import numpy as np
    D = dense(P)
    if D is None: return False, "column out of range"
    if D.shape[0] != len(label): return False, f"rows {D.shape[0]} != {len(label)}"
    if not (np.all((D == 0) | (D == 1)) and np.all(D.sum(1) == 1)): return False, "a row is not a unit vector"
    c = D.argmax(1)
    seen, back = {}, {}
    for i, (a, b) in enumerate(zip(label, c)):
        if seen.setdefault(a, b) != b or back.setdefault(b, a) != a: return False, f"dof {i}: class {a} column {b}"
    return D.shape[1] == len(seen), f"{D.shape[1]} columns for {len(seen)} classes"


def pairs(emit, a):
    import numpy as np, jax.numpy as jnp
    import feax as fe
    from feax.flat.pbc import PeriodicPairing, prolongation_matrix
    rng = random.Random(a["seed"])
    for k, x in enumerate(a["lists"]):
        vec = rng.choice([1, 1, 2, 3]); comp = rng.randrange(vec); x0 = rng.choice([0.0, -3.0, 2.5]); h = rng.choice([1.0, 0.25])
        n = 5
        perm = list(range(2 * n)); rng.shuffle(perm)
        pts = np.array([[x0 + h * (i % n), 1.0 * (i // n)] for i in range(2 * n)])[perm]     # points of y = 0 take part, y = 1 do not
        at = {(round((p[0] - x0) / h), int(p[1])): i for i, p in enumerate(pts)}
        cells = np.array([[at[i, 0], at[i + 1, 0], at[i + 1, 1], at[i, 1]] for i in range(n - 1)])
        mesh = fe.Mesh(pts, cells, ele_type="QUAD4")
        def pr(t):
            lo, hi, d = t["lo"], t["hi"], t["d"]
            L = lambda s: (lambda p: (p[1] < 0.5) & (p[0] > x0 + h * (lo + s - 0.5)) & (p[0] < x0 + h * (hi + s + 0.5)))
            return PeriodicPairing(L(0), L(d), lambda p: p + np.array([h * d, 0.0]), comp)
        key = "list:" + ";".join(f"{t['lo']}-{t['hi']}+{t['d']}" for t in x["list"])
        try:
            P = prolongation_matrix([pr(t) for t in x["list"]], mesh, vec)
        except (ValueError, AssertionError) as e:
            emit(key, not x["ok"], "admissible pairings are accepted", repr(e)[:300]); continue
        if not x["ok"]:
            emit(key, False, "conflicting pairings are rejected", "no error"); continue
        lab = []
        for i in range(2 * n):
            q = (round((pts[i, 0] - x0) / h), int(pts[i, 1]))
            for c in range(vec):
                lab.append((x["root"][q[0]] if q[1] == 0 and c == comp else q[0], q[1], c))
        ok, why = partition_ok(P, lab)
        emit(key, ok, "every dof depends on exactly its independent one", why)


def cells(emit, a):
    import numpy as np
    import feax as fe, feax.flat as flat
    rng = random.Random(a["seed"] + 5)
    for x in a["cells"]:
        b = x["box"]; d = len(b)
        for variant in range(2):
            sh = [0.0] * d if variant == 0 else [rng.choice([-1.0, 3.0, -2.5, 7.25, 1000.0, 20000.0]) for _ in b]
            h = [rng.choice([1.0, 0.5, 0.125]) for _ in b]
            vec = rng.choice([1, 2, d])
            ety = rng.choice(["QUAD4", "TRI3"] if d == 2 else ["HEX8", "TET4"])
            nod = np.array(x["nodes"]); pts = nod * np.array(h) + np.array(sh)
            perm = np.arange(len(pts)); np.random.default_rng(len(pts) + variant).shuffle(perm)
            inv = np.argsort(perm)
            quad = [[inv[i] for i in c] for c in box_idx(b)]
            if ety == "TRI3": quad = [t for c in quad for t in ([c[0], c[1], c[2]], [c[0], c[2], c[3]])]
            if ety == "TET4": quad = [[c[i] for i in t] for c in quad for t in ((0, 1, 3, 4), (1, 2, 3, 6), (1, 3, 4, 6), (1, 4, 5, 6), (3, 4, 6, 7))]
            mesh = fe.Mesh(pts[perm], np.array(quad), ele_type=ety)
            class Cell(flat.unitcell.UnitCell):
                def mesh_build(self): return mesh
            key = f"cell:{b}:{sh}:{ety}:{vec}"
            f = flat.pbc.periodic_bc_2D if d == 2 else flat.pbc.periodic_bc_3D
            try:
                P = flat.pbc.prolongation_matrix(f(Cell(), vec=vec, dim=d), mesh, vec)
            except Exception as e:
                emit(key, False, "periodic conditions of a unit cell can be built", repr(e)[:300]); continue
            lab = [(tuple(x["rep"][perm[i]]), c) for i in range(len(pts)) for c in range(vec)]
            ok, why = partition_ok(P, lab)
            emit(key, ok, "nodes differing by whole periods share their dofs", why)
            if ok:
                # expanding any reduced vector gives a periodic field
                y = np.random.default_rng(0).normal(size=P.shape[1]); u = np.asarray(P @ y).reshape(-1, vec)
                at = {tuple(nod[perm[i]]): i for i in range(len(pts))}
                emit(key, all(np.array_equal(u[i], u[at[tuple(x["rep"][perm[i]])]]) for i in range(len(pts))), "expanded vector is periodic")


def grid(n, h, o, ety, perm_seed=0):
    import numpy as np, feax as fe
    nod = np.array(list(itertools.product(*[range(k + 1) for k in n]))); pts = nod * np.array(h) + np.array(o)
    perm = np.arange(len(pts))
    if perm_seed: np.random.default_rng(perm_seed).shuffle(perm)
    inv = np.argsort(perm)
    cells = [[inv[i] for i in c] for c in box_idx(n)]
    src = list(range(len(cells)))
    if ety == "TRI3": cells, src = [t for c in cells for t in ([c[0], c[1], c[2]], [c[0], c[2], c[3]])], [i for i in src for _ in range(2)]
    return fe.Mesh(pts[perm], np.array(cells), ele_type=ety), src


def laminate(emit, a):
    import numpy as np, jax, jax.numpy as jnp
    import feax as fe, feax.flat as flat
    from vlib import close, err
    rng = random.Random(a["seed"] * 3 + len(a["L"]))
    built = {}
    for x in a["L"]:
        d, ax, n = x["dim"], x["axis"] - 1, len(x["layers"])
        ety = rng.choice(["QUAD4", "TRI3"]) if d == 2 else "HEX8"
        kb = (d, ax, n, ety, rng.randrange(2 if d == 2 else 1))
        if kb not in built:
            nn = [rng.choice([1, 2]) for _ in range(d)]; nn[ax] = n
            h = [rng.choice([1.0, 0.5, 2.0]) for _ in range(d)]; o = [rng.choice([0.0, -1.0, 4.5]) for _ in range(d)]
            mesh, src = grid(nn, h, o, ety, rng.choice([0, 3]))
            class El(fe.Problem):
                def get_tensor_map(self):
                    def s(g, lam, mu):
                        e = 0.5 * (g + g.T)
                        return lam * jnp.trace(e) * jnp.eye(self.dim) + 2 * mu * e
                    return s
            prob = El(mesh, vec=d, dim=d, ele_type=ety)
            class Cell(flat.unitcell.UnitCell):
                def mesh_build(self): return mesh
            f = flat.pbc.periodic_bc_2D if d == 2 else flat.pbc.periodic_bc_3D
            P = flat.pbc.prolongation_matrix(f(Cell(), vec=d, dim=d), mesh, d)
            bc = fe.DirichletBCConfig([]).create_bc(prob)
            opt = rng.choice([None, fe.KrylovSolverOptions(solver="cg", tol=1e-13, atol=1e-14), fe.DirectSolverOptions()]) if d == 2 else rng.choice([None, fe.KrylovSolverOptions(solver="cg", tol=1e-13, atol=1e-14)])
            solve = flat.solver.create_homogenization_solver(prob, bc, P, mesh, solver_options=opt, dim=d)
            grad = jax.jit(jax.jacrev(lambda v, kind: solve(fe.TracedParams(volume_vars=v)).C_hom, argnums=0), static_argnums=1) if d == 2 else None
            built[kb] = (mesh, prob, P, solve, jax.jit(solve), grad, nn, h, o)
        mesh, prob, P, solve, jsolve, grad, nn, h, o = built[kb]
        cen = np.asarray(mesh.points)[np.asarray(mesh.cells)].mean(1)
        lay = np.floor((cen[:, ax] - o[ax]) / h[ax] + 1e-9).astype(int)
        lam = np.array([x["layers"][i][0] for i in lay], float); mu = np.array([x["layers"][i][1] for i in lay], float)
        kind = rng.choice(["cell", "quad"])
        v = (jnp.array(lam), jnp.array(mu))
        if kind == "quad":
            nq = np.asarray(prob.JxW).shape[-1]; v = tuple(jnp.tile(q[:, None], (1, nq)) for q in v)
        tp = fe.TracedParams(volume_vars=v)
        r = (jsolve if rng.random() < 0.8 else solve)(tp)
        C = np.array([[q[0] / q[1] for q in row] for row in x["C"]])
        key = f"laminate:{d}D:axis{ax}:{x['layers']}:{ety}:{kind}"
        emit(key, close(r.C_hom, C, 1e-6), "homogenized stiffness is the exact average", err(r.C_hom, C))
        ut, um = np.asarray(r.u_totals), np.asarray(r.u_macros)
        E = [np.zeros((d, d)) for _ in range(len(C))]
        V = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)] if d == 3 else [(0, 0), (1, 1), (0, 1)]
        for k, (i, j) in enumerate(V): E[k][i, j] = E[k][j, i] = 1.0 if i == j else 0.5
        want = np.array([(np.asarray(mesh.points) @ e.T).ravel() for e in E])
        emit(key, close(um, want, 1e-12), "macroscopic fields are the unit strains", err(um, want))
        nq = np.asarray(prob.JxW).shape[-1]
        if nq % n == 0:                                     # the layers' materials as quadrature point values, in a different order in every cell
            qv = [rng.sample(list(range(n)) * (nq // n), nq) for _ in range(len(cen))]; tq = fe.TracedParams(volume_vars=tuple(jnp.array([[float(x["layers"][i][t]) for i in row] for row in qv]) for t in range(2)))
            for k in range(len(C)):
                s = flat.solver.average_stress(prob, jnp.asarray(want[k]), tq, d); U = np.array([q[0] / q[1] for q in x["U"][k]])
                emit(key, close(s, U, 1e-9), "average stress of a uniform strain is the average over the quadrature points", err(s, U))
        D = dense(P); fl = ut - um
        emit(key, close(D @ np.linalg.lstsq(D, fl.T, rcond=None)[0], fl.T, 1e-7), "fluctuation is periodic")
        if grad is not None and len(x["layers"]) == 2:
            # derivative of the exact formula by the formula itself (the layer stiffness mean is smooth): finite difference of the closed form
            g = grad(v, kind)
            for vi in range(2):
                gg = np.asarray(g[vi]); gg = gg.sum(-1) if kind == "quad" else gg
                for l in range(len(x["layers"])):
                    def cf(e):
                        L2 = [list(map(float, q)) for q in x["layers"]]; L2[l][vi] += e
                        return chom(L2, d, ax)
                    fd = (cf(1e-5) - cf(-1e-5)) / 2e-5
                    emit(key, close(gg[..., lay == l].sum(-1), fd, 2e-5), "derivative of the homogenized stiffness", err(gg[..., lay == l].sum(-1), fd))


def chom(L, d, ax):
    """closed form of spec/Laminate.tla in floating point (checked against the emitted exact values by the caller's tests)"""
    import numpy as np
    V = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)] if d == 3 else [(0, 0), (1, 1), (0, 1)]
    C = np.zeros((len(V), len(V))); m = lambda f: sum(f(*q) for q in L) / len(L)
    for k, (a, b) in enumerate(V):
        E = np.zeros((d, d)); E[a, b] = E[b, a] = 1.0 if a == b else 0.5
        lat = sum(E[i, i] for i in range(d) if i != ax)
        tn = (E[ax, ax] + lat * m(lambda l, u: l / (l + 2 * u))) / m(lambda l, u: 1 / (l + 2 * u))
        S = np.zeros((d, d))
        for l, u in L:
            e = E.copy(); e[ax, ax] = (tn - l * lat) / (l + 2 * u)
            for j in range(d):
                if j != ax: e[ax, j] = e[j, ax] = 2 * E[ax, j] / m(lambda l, u: 1 / u) / (2 * u)
            S += (l * np.trace(e) * np.eye(d) + 2 * u * e) / len(L)
        C[:, k] = [S[i, j] for i, j in V]
    return C


def ref_system(prob, tp, P):
    """dense full tangent and residual at zero through the public assembly functions"""
    import numpy as np, jax
    import feax as fe
    n = prob.num_total_dofs_all_vars
    from feax.assembler import get_res
    r = lambda u: jax.flatten_util.ravel_pytree(get_res(prob, prob.unflatten_fn_sol_list(u), tp))[0]
    z = np.zeros(n)
    return np.asarray(jax.jacfwd(r)(jax.numpy.array(z))), np.asarray(r(jax.numpy.array(z)))


def reduced(emit, a):
    import numpy as np, jax, jax.numpy as jnp
    import feax as fe, feax.flat as flat
    from vlib import close, err
    rng = random.Random(a["seed"] * 5 + 1)
    nr = np.random.default_rng(a["seed"])
    for (n, ety, vec) in [((3, 2), "QUAD4", 1), ((2, 3), "TRI3", 2), ((3, 3), "QUAD4", 2), ((2, 2, 3), "HEX8", 1)]:
        d = len(n)
        mesh, _ = grid(n, [0.5, 1.0, 0.75][:d], [-2.0, 3.0, 1.0][:d], ety, 7)
        class Pb(fe.Problem):
            def get_tensor_map(self): return lambda g, k, m, f: k * g + (0.3 * k * g.T if g.shape[0] == g.shape[1] else 0.0)
            def get_mass_map(self): return lambda u, x, k, m, f: m * u - f * (1.0 + jnp.arange(vec))
        prob = Pb(mesh, vec=vec, dim=d, ele_type=ety)
        class Cell(flat.unitcell.UnitCell):
            def mesh_build(self): return mesh
        f = flat.pbc.periodic_bc_2D if d == 2 else flat.pbc.periodic_bc_3D
        P = flat.pbc.prolongation_matrix(f(Cell(), vec=vec, dim=d), mesh, vec)
        D = dense(P)
        nc = len(mesh.cells)
        for mode in ("free", "pin"):
            # "pin": prescribed values on interior (unpaired) nodes
            pts = np.asarray(mesh.points)
            inner = np.array([i for i in range(len(pts)) if np.all(pts[i] > pts.min(0) + 1e-9) and np.all(pts[i] < pts.max(0) - 1e-9)])
            q = pts[inner[0]] if len(inner) else None
            if mode == "pin" and q is None: continue
            spec = [] if mode == "free" else [fe.DirichletBCSpec(location=lambda p: jnp.all(jnp.abs(p - q) < 1e-6), component="all", value=0.75)]
            bc = fe.DirichletBCConfig(spec).create_bc(prob)
            rows = np.asarray(bc.bc_rows, int)
            for mth in ("cg", "default", "umfpack", "cholmod", "amg", "bicgstab"):
                if mth == "amg" and P.shape[1] < 18: continue          # one-level hierarchies are not supported by amjax
                try: opt = fe.AMGSolverOptions(tol=1e-12, atol=1e-14) if mth == "amg" else (fe.KrylovSolverOptions(tol=1e-12, atol=1e-14) if mth == "default" else fx.mk_options(mth))
                except Exception: continue
                tp = fe.TracedParams(volume_vars=(jnp.array(1.0 + nr.random(nc)), jnp.array(0.5 + nr.random(nc)), jnp.array(nr.normal(size=nc))))
                K, r0 = ref_system(prob, tp, P)
                key = f"reduced:{n}:{ety}:{vec}:{mode}:{mth}"
                try:
                    so = fe.create_solver(prob, bc, opt, linear=True, P=P, traced_params=tp, return_solution=False)
                except TypeError:
                    so = fe.create_solver(prob, bc, opt, linear=True, P=P, traced_params=tp)
                for gk in ("zero", "macro", "rand"):
                    g = np.zeros(K.shape[0]) if gk == "zero" else (pts @ nr.normal(size=(d, vec))).ravel() if gk == "macro" else nr.normal(size=K.shape[0])
                    g[rows] = 0.75
                    try: u = np.asarray(jax.flatten_util.ravel_pytree(so(tp, jnp.array(g)))[0])
                    except Exception as e:
                        emit(key, False, "reduced solve runs", repr(e)[:400]); break
                    # admissible corrections: columns of P without the prescribed dofs
                    free = np.array([c for c in range(D.shape[1]) if not np.any(D[rows, c])])
                    Z = D[:, free]; y = np.linalg.solve(Z.T @ K @ Z, -Z.T @ (K @ g + r0)); want = g + Z @ y
                    emit(key + ":" + gk, close(u, want, 1e-7), "equilibrium tested with every admissible field, jump carried by the guess", err(u, want))


def cyclic(emit, a):
    import numpy as np, jax, jax.numpy as jnp
    import feax as fe
    from feax.flat.pbc import cyclic_prolongation_matrix
    from vlib import close, err
    rng = random.Random(a["seed"] * 7)
    for (c, s) in [(0.0, 1.0), (0.6, 0.8), (0.8, 0.6), (5 / 13, 12 / 13), (0.0, -1.0)]:
        for d in (2, 3):
            ang = np.arctan2(s, c); nt, nr_, nz = 2, 2, (1 if d == 3 else 0)
            idx = [(i, j, k) for i in range(nr_ + 1) for j in range(nt + 1) for k in range(nz + 1)]
            rng.shuffle(idx); at = {q: i for i, q in enumerate(idx)}
            pts = np.array([[(1 + i) * np.cos(ang * j / nt), (1 + i) * np.sin(ang * j / nt)] + ([0.7 * k] if d == 3 else []) for i, j, k in idx])
            sg = 1 if ang > 0 else -1
            lay = [(0, 0), (1, 0), (1, 1), (0, 1)] if sg > 0 else [(0, 0), (0, 1), (1, 1), (1, 0)]
            cl = []
            for i in range(nr_):
                for j in range(nt):
                    b = [[at[i + p, j + q, k] for p, q in lay] for k in range(nz + 1)]
                    cl.append(b[0] if d == 2 else b[0] + b[1])
            mesh = fe.Mesh(pts, np.array(cl), ele_type="QUAD4" if d == 2 else "HEX8")
            R = np.array([[c, -s], [s, c]]) if d == 2 else np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])
            for vec in ({d} if d == 2 else {3}):
                master = lambda p: (jnp.abs(p[1]) < 1e-7) & (p[0] > 0)
                slave = lambda p: (jnp.abs(-s * p[0] + c * p[1]) < 1e-7) & (c * p[0] + s * p[1] > 0)
                P = cyclic_prolongation_matrix(mesh, vec, master, slave, R, lambda p: R @ p)
                D = dense(P); key = f"cyclic:{c:.3f},{s:.3f}:{d}"
                if D is None: emit(key, False, "columns in range"); continue
                blk = lambda q: D[at[q] * vec:at[q] * vec + vec]
                ok = all(close(blk((i, nt, k)), R @ blk((i, 0, k)), 1e-12) for i in range(nr_ + 1) for k in range(nz + 1))
                emit(key, ok, "slave is the rotated master")
                ind = np.concatenate([blk(q) for q in idx if q[1] != nt])
                emit(key, np.all((ind == 0) | (ind == 1)) and np.all(ind.sum(0) == 1) and np.all(ind.sum(1) == 1) and D.shape[1] == len(ind), "independent dofs appear once each")
                # a rotation-invariant field is representable exactly, a generic one is not altered by projection
                u = np.concatenate([p[:2] * (1 + p[0] ** 2 + p[1] ** 2) if d == 2 else [*(p[:2] * 2.0 + 0.5 * np.array([-p[1], p[0]])), p[2]] for p in pts])
                y = np.linalg.lstsq(D, u, rcond=None)[0]
                emit(key, close(D @ y, u, 1e-9), "rotation invariant fields are representable")
                # reduced solve with this P
                class Pb(fe.Problem):
                    def get_tensor_map(self): return lambda g, k: k * (g + g.T) + 0.5 * jnp.trace(g) * jnp.eye(self.dim)
                    def get_mass_map(self): return lambda u, x, k: u - jnp.concatenate([x[:2], jnp.zeros(self.dim - 2)]) - 0.2 * jnp.ones(self.dim)
                pb = Pb(mesh, vec=vec, dim=d, ele_type=mesh.ele_type)
                tp = fe.TracedParams(volume_vars=(jnp.array(1 + np.random.default_rng(1).random(len(cl))),))
                bc = fe.DirichletBCConfig([]).create_bc(pb)
                K, r0 = ref_system(pb, tp, P); want = D @ np.linalg.solve(D.T @ K @ D, -D.T @ r0)
                for m in ("cg", "umfpack"):
                    so = fe.create_solver(pb, bc, fx.mk_options(m), linear=True, P=P, traced_params=tp, return_solution=False)
                    u = np.asarray(so(tp, jnp.zeros(len(u))))
                    emit(key + m, close(u, want, 1e-7), "cyclic reduced solve", err(u, want))
