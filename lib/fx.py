"""Helpers shared by replay drivers: integer box meshes, problems with the specification's weak form."""
import itertools, math, random
import numpy as np

S3 = math.sqrt(3.0)
Q_CORNERS = [(0, 0), (1, 0), (1, 1), (0, 1)]
H_CORNERS = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]


def box_cells(dims, rng=None, drop=(), shuffle=True):
    """Integer grid; returns (pts, cells) with shuffled numbering, rotated local order, some cells dropped."""
    dim = len(dims)
    corners = Q_CORNERS if dim == 2 else H_CORNERS
    cells_p = []
    for idx in itertools.product(*[range(d) for d in dims]):
        if idx in drop:
            continue
        cs = [tuple(i + c for i, c in zip(idx, cr)) for cr in corners]
        if rng is not None and shuffle:
            r = rng.randrange(4)
            if dim == 2:
                cs = cs[r:] + cs[:r]
            else:
                cs = cs[:4][r:] + cs[:4][:r] + cs[4:][r:] + cs[4:][:r]
        cells_p.append(cs)
    pts = sorted({p for c in cells_p for p in c})
    if rng is not None and shuffle:
        rng.shuffle(pts)
        rng.shuffle(cells_p)
    ix = {p: i for i, p in enumerate(pts)}
    return [list(p) for p in pts], [[ix[p] for p in c] for c in cells_p]


def box_faces(dim, pts, cells, axis, value):
    """Boundary faces (cell, nodes) on the plane axis=value (value in grid units)."""
    out = []
    for ci, c in enumerate(cells):
        nodes = [n for n in c if pts[n][axis] == value]
        if len(nodes) == 2 ** (dim - 1):
            out.append((ci, nodes))
    return out


def zval(z):
    return z[0] + z[1] * S3


# ---------------------------------------------------------------------------------------------------------------
# linear systems of spec/LinSys.tla (unit QUAD4 cells, integer data)
def lin_scenario(rng, sid, dims, vecs, nfree, mass=False, sym=False, ga=0, spd=False, surfs=True, drop=()):
    pts, cells = box_cells(dims, rng, drop)
    nc = sum(vecs); nn = len(pts)
    R = lambda a=2: rng.randint(-a, a)
    if spd or sym:
        A = [[0] * nc for _ in range(nc)]; B = [[0] * nc for _ in range(nc)]
        for i in range(nc):
            A[i][i] = 2 if nc > 1 else 1; B[i][i] = 2 if nc > 1 else 1
            for j in range(i + 1, nc):
                A[i][j] = A[j][i] = rng.choice([-1, 0, 1]) if nc <= 2 else 0
                B[i][j] = B[j][i] = rng.choice([-1, 0, 1]) if nc <= 2 else 0
        if sym and not spd:
            A[0][0] = -A[0][0] if nc > 1 else A[0][0]
    else:
        A = [[rng.choice([-1, 1, 1]) if i != j else 2 for j in range(nc)] for i in range(nc)]
        for i in range(nc):
            for j in range(i):
                if A[i][j] == A[j][i]: A[i][j] = 0
        B = [[R(1) if i != j else 1 for j in range(nc)] for i in range(nc)]
    dofs = list(range(1, nn * nc + 1))
    # free dofs: prefer interior/adjacent ones so that they couple
    ci = rng.randrange(len(cells))
    near = []
    off = 0
    for v in vecs:
        for n in cells[ci]:
            near += [nn * off + n * v + j + 1 for j in range(v)]
        off += v
    rng.shuffle(near)
    free = sorted(near[:nfree])
    bc = [[d, R(2)] for d in dofs if d not in free]
    faces = []
    ax, val = rng.choice([(0, 0), (1, dims[1]), (0, dims[0])])
    if surfs:
        for c, nodes in box_faces(2, pts, cells, ax, val):
            faces.append(dict(c=c, nodes=nodes, t=rng.choice([1, 2, 3])))
    return dict(id=sid, pts=pts, cells=cells, vecs=list(vecs), A=A, B=B, mass=1 if mass else 0, src=[R() for _ in range(nc)],
                T=[R() for _ in range(nc)], ga=ga, k=[rng.randint(1, 3) for _ in cells], m=[rng.randint(1, 3) for _ in cells],
                faces=faces, fax=ax, fval=val, bc=bc, c=[R(3) for _ in range(nn * nc)], sym=1 if (sym or spd) else 0, spd=1 if spd else 0, dims=list(dims))


def lin_problem(s, view="FULL"):
    import jax.numpy as jnp, feax as fe
    from feax.mesh import Mesh
    A, B, src, T = (jnp.array(s[k], float) for k in ("A", "B", "src", "T"))
    cut = np.cumsum([0] + s["vecs"])
    split = lambda a: [a[cut[i]:cut[i + 1]] for i in range(len(s["vecs"]))]
    ms, ga = float(s["mass"]), float(s["ga"])
    class P(fe.Problem):
        if len(s["vecs"]) == 1:
            def get_tensor_map(self): return lambda g, k, m: k * (A @ g)
            def get_mass_map(self): return lambda u, x, k, m: ms * m * (B @ u) + src
            def get_surface_maps(self): return [lambda u, x, t: t * (T + ga * u)] if s["faces"] else []
        else:
            def get_weak_form(self):
                return lambda vals, grads, x, k, m: (split(ms * m * (B @ jnp.concatenate(vals)) + src), split(k * (A @ jnp.concatenate(grads))))
            def get_surface_weak_forms(self):
                return [lambda vals, x, t: split(t * (T + ga * jnp.concatenate(vals)))] if s["faces"] else []
    mesh = Mesh(np.array(s["pts"], float), np.array(s["cells"]), ele_type="QUAD4")
    loc = [lambda x: jnp.isclose(x[s["fax"]], float(s["fval"]), atol=1e-5)] if s["faces"] else None
    if len(s["vecs"]) == 1:
        return P(mesh, vec=s["vecs"][0], dim=2, ele_type="QUAD4", location_fns=loc, matrix_view=view)
    nv = len(s["vecs"])
    return P([mesh] * nv, vec=list(s["vecs"]), dim=2, ele_type=["QUAD4"] * nv, gauss_order=[None] * nv, location_fns=loc, matrix_view=view)


def lin_params(s, prob, k=None, m=None, t=None):
    import jax.numpy as jnp, feax as fe
    k = jnp.array(s["k"], float) if k is None else k
    m = jnp.array(s["m"], float) if m is None else m
    sv = []
    if s["faces"]:
        bi = np.asarray(prob.boundary_inds_list[0])
        nq = int(np.asarray(prob.physical_surface_quad_points[0]).shape[1])
        order = lin_face_order(s, prob)
        t = jnp.array([f["t"] for f in s["faces"]], float) if t is None else t
        sv = [(jnp.tile(t[order][:, None], (1, nq)),)]
    return fe.TracedParams(volume_vars=(k, m), surface_vars=sv)


def lin_face_order(s, prob):
    """face index (in the scenario) of every selected boundary row of the problem"""
    bi = np.asarray(prob.boundary_inds_list[0])
    by = {f["c"]: i for i, f in enumerate(s["faces"])}
    return np.array([by[int(r)] for r in bi[:, 0]])


def lin_bc(s, prob):
    """the prescribed dofs through the public DirichletBC config, one spec per dof"""
    import jax.numpy as jnp, feax as fe
    nn = len(s["pts"]); specs = []
    X = np.array(s["pts"], float)
    off = 0
    tab = {}
    for v, vec in enumerate(s["vecs"]):
        for n in range(nn):
            for j in range(vec):
                tab[nn * off + n * vec + j + 1] = (v, n, j)
        off += vec
    # group by (variable, component): one location function over the selected nodes, position dependent value
    for v, vec in enumerate(s["vecs"]):
        for j in range(vec):
            sel = {tab[d][1]: val for d, val in s["bc"] if tab[d][0] == v and tab[d][2] == j}
            if not sel: continue
            P = jnp.array(X[sorted(sel)]); V = jnp.array([float(sel[n]) for n in sorted(sel)])
            loc = (lambda P: lambda x: jnp.any(jnp.all(jnp.abs(P - x) < 1e-6, axis=1)))(P)
            value = (lambda P, V: lambda x: V[jnp.argmin(jnp.sum((P - x) ** 2, axis=1))])(P, V)
            specs.append(fe.DirichletBCSpec(loc, j, value, v))
    return fe.DirichletBCConfig(specs).create_bc(prob)


def limbs(x):
    return sum(int(v) * 1000 ** i for i, v in enumerate(x))


# ---------------------------------------------------------------------------------------------------------------
# reference of spec/LinSys.tla in floating point (validated against TLC's exact records by every check that uses it)
_STIFF = {0: 4 / 6, 1: -1 / 6, 2: -2 / 6}
_MASS = {0: 4 / 36, 1: 2 / 36, 2: 1 / 36}


class LinRef:
    def __init__(self, s):
        self.s = s
        X = np.array(s["pts"]); C = np.array(s["cells"])
        self.nn = len(X); vecs = s["vecs"]; self.nc = sum(vecs)
        off = np.cumsum([0] + vecs)
        comp = [(v, j) for v in range(len(vecs)) for j in range(vecs[v])]
        self.dof = lambda n, c: self.nn * off[comp[c][0]] + np.asarray(n) * vecs[comp[c][0]] + comp[c][1]
        self.n = self.nn * self.nc
        d = np.abs(X[C][:, :, None, :] - X[C][:, None, :, :]).sum(-1)          # (cells,4,4)
        ks = np.vectorize(_STIFF.get)(d); ms = np.vectorize(_MASS.get)(d) * s["mass"]
        A, B = np.array(s["A"], float), np.array(s["B"], float)
        self.D = np.stack([self.dof(C, c) for c in range(self.nc)], 1).reshape(len(C), -1)     # (cells, nc*4)
        self.Ke = np.einsum("il,eab->eialb", A, ks).reshape(len(C), 4 * self.nc, -1)
        self.Me = np.einsum("il,eab->eialb", B, ms).reshape(len(C), 4 * self.nc, -1)
        self.src = np.repeat(np.array(s["src"], float) / 4, 4)
        F = s["faces"]
        self.FD = np.array([[self.dof(n, c) for c in range(self.nc) for n in f["nodes"]] for f in F], int).reshape(len(F), -1)
        e = np.array([[2., 1.], [1., 2.]]) / 6 * s["ga"]
        self.Fe = np.kron(np.eye(self.nc), e)
        self.T = np.repeat(np.array(s["T"], float) / 2, 2)
        self.bd = np.array([b[0] - 1 for b in s["bc"]], int)
        self.bv = np.array([b[1] for b in s["bc"]], float)
        o = np.argsort(self.bd); self.bd, self.bv = self.bd[o], self.bv[o]
        self.free = np.setdiff1d(np.arange(self.n), self.bd)
        self.k, self.m = np.array(s["k"], float), np.array(s["m"], float)
        self.t = np.array([f["t"] for f in F], float)
        self.c = np.array(s["c"], float)

    def KR(self, k, m, t):
        K = np.zeros((self.n, self.n)); r = np.zeros(self.n)
        for e in range(len(self.D)):
            K[np.ix_(self.D[e], self.D[e])] += k[e] * self.Ke[e] + m[e] * self.Me[e]
            r[self.D[e]] += self.src
        for f in range(len(self.FD)):
            K[np.ix_(self.FD[f], self.FD[f])] += t[f] * self.Fe
            r[self.FD[f]] += t[f] * self.T
        return K, r

    def solve(self, k=None, m=None, t=None, g=None, c=None):
        k, m, t, g, c = (d if x is None else np.asarray(x, float) for x, d in ((k, self.k), (m, self.m), (t, self.t), (g, self.bv), (c, self.c)))
        K, r = self.KR(k, m, t)
        f, b = self.free, self.bd
        u = np.zeros(self.n); u[b] = g
        if len(f): u[f] = np.linalg.solve(K[np.ix_(f, f)], -r[f] - K[np.ix_(f, b)] @ g)
        lam = np.zeros(self.n)
        if len(f): lam[f] = np.linalg.solve(K[np.ix_(f, f)].T, c[f])
        dk = np.array([-lam[D] @ Ke @ u[D] for D, Ke in zip(self.D, self.Ke)])
        dm = np.array([-lam[D] @ Me @ u[D] for D, Me in zip(self.D, self.Me)])
        dt = np.array([-lam[D] @ (self.T + self.Fe @ u[D]) for D in self.FD]).reshape(len(self.FD))
        dg = c[b] - K[np.ix_(f, b)].T @ lam[f]
        return dict(u=u, lam=lam, dk=dk, dm=dm, dt=dt, dg=dg, K=K, r=r, J=c @ u)


def lin_validate(emit, s, e, tag=""):
    """the float reference agrees with TLC's exact record"""
    R = LinRef(s); r = R.solve()
    D = e["D"]; sc = e["sc"]
    o = np.argsort([b[0] for b in s["bc"]])
    ex = dict(u=np.array(e["u"]) / D, lam=np.array(e["lam"]) / D * sc, K=np.array(e["K"]) / sc, r=np.array(e["r0"]) / sc,
              dk=np.array([limbs(x) / D / D for x in e["dk"]]), dt=np.array([limbs(x) / D / D for x in e["dt"]]), dg=np.array([x / D for x in e["dg"]])[o])
    if s["mass"]: ex["dm"] = np.array([limbs(x) / D / D for x in e["dm"]])
    for k, v in ex.items():
        if v.size and not (v.shape == r[k].shape and np.max(np.abs(v - r[k])) < 1e-9 * (1 + np.max(np.abs(v)))):
            emit(f"reference:{s['id']}:{k}", False, "machinery: float reference equals the specification", f"{v} vs {r[k]}"); return False
    emit(f"reference:{s['id']}", True, "machinery: float reference equals the specification")
    return True


def mk_options(method, view="FULL", spd=True, precond="none", tight=True, **kw):
    import feax as fe
    from feax.solvers.options import DirectSolverOptions, KrylovSolverOptions, AMGSolverOptions, SKSPARSEOptions
    if method == "default": return None
    if method in ("spsolve", "umfpack", "directauto"):
        return DirectSolverOptions(solver="auto" if method == "directauto" else method, **kw)
    if method.startswith("cholmod"):
        return DirectSolverOptions(solver="cholmod", sksparse_options=SKSPARSEOptions(lower=(view != "UPPER") if method == "cholmod" else False, order=kw.pop("order", "amd")), **kw)
    if method.startswith("amg"):
        return AMGSolverOptions(tol=1e-12, atol=1e-13, rebuild_every=0, **kw)
    t = dict(tol=1e-13, atol=1e-13, maxiter=4000) if tight else {}
    if precond == "jacobi": t["use_jacobi_preconditioner"] = True
    if precond == "custom": t["preconditioner"] = lambda x: 0.25 * x
    if precond == "x0": t["x0_fn"] = lambda sol: 0 * sol + 1.0
    return KrylovSolverOptions(solver="auto" if method == "krylovauto" else method, **t, **kw)

# ---------------------------------------------------------------------------------------------------------------
# meshes of every element type on the doubled integer lattice (node order of spec/Elements.tla)
_T3 = [(0, 0), (2, 0), (0, 2)]; _Q4 = [(0, 0), (2, 0), (2, 2), (0, 2)]
_T4 = [(0, 0, 0), (2, 0, 0), (0, 2, 0), (0, 0, 2)]
_H8 = [(0, 0, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0), (0, 0, 2), (2, 0, 2), (2, 2, 2), (0, 2, 2)]
REF = dict(TRI3=_T3, TRI6=_T3 + [(1, 0), (1, 1), (0, 1)], QUAD4=_Q4, QUAD8=_Q4 + [(1, 0), (2, 1), (1, 2), (0, 1)], QUAD9=_Q4 + [(1, 0), (2, 1), (1, 2), (0, 1), (1, 1)],
           TET4=_T4, TET10=_T4 + [(1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)], HEX8=_H8,
           HEX20=_H8 + [(1, 0, 0), (2, 1, 0), (1, 2, 0), (0, 1, 0), (1, 0, 2), (2, 1, 2), (1, 2, 2), (0, 1, 2), (0, 0, 1), (2, 0, 1), (2, 2, 1), (0, 2, 1)])
NCORN = dict(TRI3=3, TRI6=3, QUAD4=4, QUAD8=4, QUAD9=4, TET4=4, TET10=4, HEX8=8, HEX20=8)


def ref_mesh(e, dims, rng=None, drop=()):
    """Box of unit cells (doubled coordinates) of any element type: boxes are cut into simplices where needed; shuffled and,
    if rng is given, each cell starts at a random corner (orientation kept)."""
    dim = len(dims); out = []
    for idx in itertools.product(*[range(d) for d in dims]):
        if idx in drop: continue
        base = np.array(idx) * 2
        if e in ("TRI3", "TRI6"):
            q = [np.array(c) + base for c in _Q4]
            r = rng.randrange(4) if rng else 0; q = q[r:] + q[:r]
            subs = [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
        elif e in ("TET4", "TET10"):
            subs = []
            for p in itertools.permutations(range(3)):       # Kuhn: conforming between neighbouring boxes
                v = [np.zeros(3, int)]
                for a in p: w = v[-1].copy(); w[a] += 2; v.append(w)
                if np.linalg.det(np.stack([v[i] - v[0] for i in (1, 2, 3)])) < 0: v[2], v[3] = v[3], v[2]
                subs.append([x + base for x in v])
        else: subs = [None]
        for s in subs:
            if s is None:
                r = rng.randrange(4) if rng else 0
                rot = lambda p: p                                     # turn r quarter turns about the last axis
                def turn(p):
                    p = list(p)
                    for _ in range(r): p[0], p[1] = 2 - p[1], p[0]
                    return p
                out.append([tuple(int(v) for v in np.array(turn(p)) + base) for p in REF[e]])
            else:
                if rng:
                    k = rng.randrange(3); s = s[k:3] + s[:k] + s[3:]    # even permutation of the first three
                A = np.stack([s[d + 1] - s[0] for d in range(dim)])
                out.append([tuple(int(v) for v in (2 * s[0] + np.array(p) @ A) // 2) for p in REF[e]])
    pts = sorted({p for c in out for p in c})
    if rng: rng.shuffle(pts); rng.shuffle(out)
    ix = {p: i for i, p in enumerate(pts)}
    return [list(p) for p in pts], [[ix[p] for p in c] for c in out]
