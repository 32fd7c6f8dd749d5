"""C01 assembly exactness.  Spec: spec/Assembly.tla.  TLC (1) explores every batch schedule of the assembler on
small problems, (2) computes the exact residual and tangent of every scenario; the scenarios are then replayed through
every public assembly route of feax and compared entry by entry."""
import random, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fx import box_cells, box_faces, zval


def scenario(rng, sid, dims, h, vecs, kkind, mkind, al=0, be=0, surfs=(), drop=(), sym=False, big=False, upper=3):
    dim = len(dims)
    pts, cells = box_cells(dims, rng, drop)
    nc = sum(vecs); nn = len(pts)
    R = lambda: rng.randint(-upper, upper)
    if sym:
        A = [[0] * nc for _ in range(nc)]; B = [[0] * nc for _ in range(nc)]
        for i in range(nc):
            for j in range(i, nc):
                A[i][j] = A[j][i] = R() if i != j else rng.randint(1, 3)
                B[i][j] = B[j][i] = R() if i != j else rng.randint(1, 3)
    else:
        A = [[R() if i != j else rng.randint(1, 3) for j in range(nc)] for i in range(nc)]
        B = [[R() for j in range(nc)] for i in range(nc)]
    def val(kind):
        if kind == "node": return [rng.randint(1, 3) for _ in range(nn)]
        if kind == "cell": return [rng.randint(1, 5) for _ in cells]
        if kind == "quad": return [[rng.randint(1, 3) for _ in c] for c in cells]
        return rng.randint(1, 4)
    faces, sf = [], []
    for s, (ax, v) in enumerate(surfs):
        sf.append(dict(T=[R() for _ in range(nc)], ga=rng.choice([1, 2, -1]) if rng.random() < .8 else 0, ax=ax, v=v))
        for ci, nodes in box_faces(dim, pts, cells, ax, v):
            faces.append(dict(s=s + 1, c=ci, nodes=nodes, t=[R() for _ in nodes]))
    return dict(id=sid, dim=dim, h=list(h), pts=pts, cells=cells, vecs=list(vecs), u=[rng.randint(-2, 2) for _ in range(nn * nc)],
                A=A, B=B, src=[R() for _ in range(nc)], al=al, be=be, kkind=kkind, kval=val(kkind), mkind=mkind, mval=val(mkind),
                faces=faces, surfs=sf, xe=([rng.randint(-1, 1) for _ in range(dim)] if max(dims) < 20 else [0] * dim), sym=1 if sym else 0)


def scenarios(seed, thorough):
    rng = random.Random(seed * 7919 + 1)
    S = []
    add = lambda *a, **k: S.append(scenario(rng, f"s{len(S)}", *a, **k))
    # small problems: also explored schedule by schedule
    add((2, 1), (1, 2), (1,), "cell", "quad", be=1, surfs=[(0, 0)])
    add((2, 2), (2, 1), (1,), "node", "cell", surfs=[(1, 2), (0, 0)], drop={(1, 1)}, sym=True)
    add((1, 1, 1), (1, 2, 1), (1,), "cell", "unif", surfs=[(2, 0)], sym=True)
    # kinds x variables
    add((3, 2), (1, 2), (2,), "node", "quad", be=1, surfs=[(0, 3), (1, 0)])
    add((3, 3), (1, 1), (1,), "quad", "node", be=2, surfs=[(1, 3)], drop={(1, 1)}, sym=True)
    add((2, 3), (2, 1), (1, 2), "node", "cell", al=1, be=1, surfs=[(0, 0), (1, 3)])
    add((3, 2), (1, 1), (2, 1, 1), "quad", "node", al=1, surfs=[(0, 3)])
    add((2, 2, 2), (1, 1, 2), (1,), "node", "cell", surfs=[(0, 2), (2, 0)])
    add((2, 1, 2), (2, 1, 1), (3,), "cell", "cell", surfs=[(1, 1)], sym=True)
    add((1, 2, 2), (1, 1, 1), (1, 2), "quad", "unif", surfs=[(2, 2)])
    # all sides, each with its own load; one side given twice
    add((3, 2), (1, 2), (1,), "cell", "node", surfs=[(0, 0), (0, 3), (1, 0), (1, 2), (0, 0)])
    add((2, 2), (2, 1), (2, 1), "node", "unif", surfs=[(1, 2), (0, 2), (1, 0)])
    add((1, 2, 2), (1, 1, 2), (1,), "quad", "cell", surfs=[(2, 2), (0, 1), (1, 0), (0, 0)])
    # around the internal batch size (256 cells), volume and surface
    add((1, 257), (1, 1), (1,), "cell", "node", surfs=[(0, 0)])
    add((256, 1), (1, 2), (1,), "quad", "cell", sym=True, surfs=[(1, 0)])
    add((1, 300), (1, 1), (1,), "node", "quad", be=1, surfs=[(0, 1), (0, 0)])
    add((17, 15), (1, 1), (1,), "cell", "unif", surfs=[(0, 17)])
    add((271, 2), (1, 1), (1,), "unif", "cell", surfs=[(1, 2)])
    if thorough:
        for _ in range(12):
            d = (rng.randint(1, 5), rng.randint(1, 5))
            v = rng.choice([(1,), (2,), (1, 1), (2, 1), (1, 2), (1, 1, 1)])
            add(d, (rng.randint(1, 2), rng.randint(1, 2)), v, rng.choice(["node", "cell", "quad", "unif"]),
                rng.choice(["node", "cell", "quad", "unif"]), al=rng.choice([0, 1]) if len(v) > 1 else 0, be=rng.choice([0, 1]),
                surfs=[(0, 0), (1, d[1])][:rng.randint(0, 2)], drop=set(), sym=False)
        add((1, 511), (1, 1), (1,), "cell", "cell", surfs=[(0, 0)])
        add((1, 513), (1, 1), (1,), "node", "cell", surfs=[(0, 0)])
        add((16, 32), (1, 1), (1,), "quad", "cell", surfs=[(0, 0)])
        add((2, 2, 65), (1, 1, 1), (1,), "cell", "cell", surfs=[(0, 0)])
        add((130, 2), (1, 1), (1, 1), "cell", "cell", al=1, surfs=[(1, 0)])
    return S


MAPS = {2: [[[1, 0], [0, 1]], [[2, 0], [0, 1]], [[3, -4], [4, 3]], [[0, -1], [2, 0]]], 3: [[[1, 0, 0], [0, 2, 0], [0, 0, 1]], [[3, -4, 0], [4, 3, 0], [0, 0, 1]], [[0, 0, 2], [1, 0, 0], [0, 1, 0]]]}


def mixed_scenarios(seed, T):
    rng = random.Random(seed * 31 + 5); S = []; from fx import ref_mesh
    plans = [(2, (2, 1), [(2, 2), (1, 1)], 1), (2, (1, 2), [(1, 1), (2, 2)], 0), (2, (2, 2), [(2, 1), (1, 2), (1, 1)], 0), (2, (1, 1), [(2, 1), (2, 1)], 1), (2, (2, 1), [(1, 1), (2, 1)], 1), (2, (2, 2), [(2, 1)], 1), (3, (1, 1, 1), [(2, 1), (1, 1)], 0)]
    if T: plans += [(3, (1, 1, 1), [(1, 2), (2, 1)], 0)] + [(2, (rng.randint(1, 4), rng.randint(1, 3)), [(rng.choice([1, 2]), rng.choice([1, 2])) for _ in range(rng.randint(1, 3))], rng.choice([0, 1])) for _ in range(24)] + [(3, (1, 1, 2), [(2, 2), (1, 1)], 0), (3, (1, 2, 1), [(1, 3), (2, 1)], 0), (2, (12, 11), [(2, 2), (1, 1)], 0)]
    for dim, dims, vs, cv in plans:
        R = lambda a=2: rng.randint(-a, a)
        P, C = ref_mesh("TRI6" if dim == 2 else "TET10", dims, rng)
        V = []
        for o, vec in vs:
            loc = dim + 1 if o == 1 else len(C[0]); ids = sorted({c[a] for c in C for a in range(loc)}); rng.shuffle(ids); new = {g: k for k, g in enumerate(ids)}
            V.append(dict(ord=o, vec=vec, nn=len(ids), cells=[[new[c[a]] for a in range(loc)] for c in C], pts=[P[g] for g in ids]))
        nc = sum(v for _, v in vs); nd = sum(v["vec"] * v["nn"] for v in V); mat = lambda: [[R() if rng.random() < .7 else 0 for _ in range(nc)] for _ in range(nc)]; ten = lambda: [[[R(1) for _ in range(dim)] for _ in range(nc)] for _ in range(nc)]
        sides = [(a, x) for a in range(dim) for x in (0, dims[a])]; rng.shuffle(sides)
        S.append(dict(id=len(S), dim=dim, M=MAPS[dim][len(S) % len(MAPS[dim])], vars=V, cor=[[[x // 2 for x in P[c[a]]] for a in range(dim + 1)] for c in C], kv=[rng.randint(1, 3) for _ in C], mv=[rng.randint(1, 3) for _ in C],
                      u=[R(1) for _ in range(nd)], A=mat(), B=mat(), C=ten(), E=ten(), src=[R() for _ in range(nc)], cv=cv, surfs=[dict(ax=a + 1, v=x, T=[R() for _ in range(nc)], ga=R(1)) for a, x in sides[:rng.choice([1, 2, 3])]],
                      ts=[[rng.randint(1, 3) for _ in C] for _ in range(3)]))
    return S


def mixed(emit, a):
    import numpy as np, jax, jax.numpy as jnp, feax as fe
    from feax import assembler as asm
    from vlib import close, err
    s, e = a["s"], a["e"]; dim = s["dim"]; M = np.array(s["M"], float); nv = len(s["vars"]); vecs = [v["vec"] for v in s["vars"]]; cut = np.cumsum([0] + vecs); n = len(s["u"])
    vd, fd = e["det"] * e["vden"], e["fden"]
    res = np.array([r[0] / vd + r[1] / fd for r in e["res"]]); J = np.zeros((n, n)); pat = np.zeros((n, n), bool)
    for g, row in enumerate(e["jac"]):
        for h, x, y in row: J[g, h] = x / vd + y / fd; pat[g, h] = True
    els = [{2: {1: "TRI3", 2: "TRI6"}, 3: {1: "TET4", 2: "TET10"}}[dim][v["ord"]] for v in s["vars"]]
    meshes = [fe.Mesh((M @ (np.array(v["pts"], float) / 2).T).T, np.array(v["cells"]), ele_type=el) for v, el in zip(s["vars"], els)]
    A, B, C, E, src = (jnp.array(s[k], float) for k in ("A", "B", "C", "E", "src")); cv = s["cv"]; split = lambda x: [x[cut[i]:cut[i + 1]] for i in range(nv)]
    def form(what):
        def wf(vals, grads, x, k, m):
            u = jnp.concatenate(vals); g = jnp.concatenate(grads)
            return split(("m" in what) * (m * (B @ u) + jnp.einsum("ild,ld->i", C, g) + src + cv * u[0] * g[:, 0])), split(("f" in what) * (k * (A @ g) + jnp.einsum("ild,l->id", E, u)))
        return wf
    trac = [(lambda S: lambda vals, x, t: split(t * (jnp.array(S["T"], float) + S["ga"] * jnp.concatenate(vals))))(S) for S in s["surfs"]]
    Mi = np.linalg.inv(M); loc = [(lambda S: lambda x: jnp.isclose(jnp.asarray(Mi[S["ax"] - 1]) @ x, S["v"], atol=1e-5))(S) for S in s["surfs"]]
    u = jnp.array(s["u"], float); v = jnp.array(np.random.default_rng(3).integers(-3, 4, n), float)
    def cmp(key, got, want, clause): emit(f"x{s['id']}:{key}", close(got, want, 1e-9), clause, err(got, want))
    def csr_dense(Q):
        ip, ix, d = np.asarray(Q.indptr), np.asarray(Q.indices), np.asarray(Q.data); D = np.zeros((n, n)); seen = np.zeros((n, n), int)
        for r in range(n):
            for p in range(ip[r], ip[r + 1]): D[r, ix[p]] += d[p]; seen[r, ix[p]] += 1
        return D, seen
    for view, route in a["plan"]:
        class P(fe.Problem):
            def _ker(self, w): return kernels(self, vecs, None, form(w), trac)
            if route != "universal" and nv > 1:
                def get_weak_form(self): return form("f" if route == "extra" else "mf")
                def get_surface_weak_forms(self): return trac
            else:
                def get_universal_kernel(self):
                    k = self._ker("f" if route == "extra" else "mf")[0]; return lambda f, x, g, w, vg, *iv: k(f, x, g, w, vg, *[jnp.full(x.shape[0], q) for q in iv])
                def get_universal_kernels_surface(self): return self._ker("mf")[1]
            if route == "extra":
                def get_extra_kernel(self):
                    k = self._ker("m")[0]; return lambda f, x, g, w, vg, *iv: k(f, x, g, w, vg, *[jnp.full(x.shape[0], q) for q in iv])
        prob = P(meshes, vec=vecs, dim=dim, ele_type=els, gauss_order=[5] * nv, location_fns=loc, matrix_view=view) if nv > 1 else P(meshes[0], vec=vecs[0], dim=dim, ele_type=els[0], gauss_order=5, location_fns=loc, matrix_view=view)
        keep = {"FULL": np.ones((n, n), bool), "UPPER": np.triu(np.ones((n, n), bool)), "LOWER": np.tril(np.ones((n, n), bool))}[view]
        bi = [np.asarray(b) for b in prob.boundary_inds_list]; emit(f"x{s['id']}:{view}:faces", [len(b) for b in bi] == e["nf"], "every selected boundary face once", str(e["nf"]))
        nq = [np.asarray(q).shape[1] for q in prob.physical_surface_quad_points]
        tp = fe.TracedParams(volume_vars=(jnp.array(s["kv"], float), jnp.array(s["mv"], float)), surface_vars=[(jnp.tile(jnp.array(s["ts"][j], float)[b[:, 0]][:, None], (1, nq[j])),) for j, b in enumerate(bi)])
        ul = prob.unflatten_fn_sol_list(u); flat = lambda r: jnp.concatenate([x.reshape(-1) for x in r]); k = f"{view}:{route}"
        r1, J1 = jax.jit(lambda uu, tp: (flat(fe.get_res(prob, prob.unflatten_fn_sol_list(uu), tp)), fe.get_jacobian(prob, prob.unflatten_fn_sol_list(uu), tp)))(u, tp)
        cmp(k + ":res", r1, res, "residual is the sum of contributions"); D, seen = csr_dense(J1); cmp(k + ":jac", D, J * keep, "tangent is the sum of contributions")
        emit(f"x{s['id']}:{k}:pattern", seen.max() <= 1 and np.all(seen[(J != 0) & keep] == 1) and not seen[~keep].any(), "one stored entry per pair, none outside the view", "")
        nobc = fe.DirichletBCConfig([]).create_bc(prob); ts = fe.TracedStructure.from_problem(prob); r2, J2 = jax.jit(asm.create_res_J_bc_csr_parametric(prob, symmetric=True))(u, tp, nobc, ts)
        cmp(k + ":fused-res", r2, res, "fused residual"); cmp(k + ":fused-jac", csr_dense(J2)[0], J * keep, "fused tangent")
        r5, j5, k5 = jax.jit(lambda u, tp, v: (lambda rm: (rm[0], rm[1](v), asm.create_matfree_Kt_parametric(prob)(u, tp, ts)(v)))(asm.create_matfree_res_J_parametric(prob, symmetric=True)(u, tp, nobc, ts)))(u, tp, v)
        cmp(k + ":mf-res", r5, res, "matrix-free residual"); cmp(k + ":mf-jac", j5, J @ np.asarray(v), "matrix-free tangent")
        cmp(k + ":mf-KT", k5, J.T @ np.asarray(v), "matrix-free transpose")


def main(ck):
    S = scenarios(ck.seed, ck.thorough)
    small = [s for s in S if len(s["cells"]) <= 4 and len(s["surfs"]) < 3 and len(s["u"]) <= 16]
    exp = {}
    def design():
        ck.tlc("Assembly", dict(ScenFile='"scen.json"', MaxBatch=3, Emit="FALSE"), files={"scen.json": small}, spec="Spec",
               invariants=["Confluent", "RowSums", "Symmetric", "ViewsCover"], workers=2)
    def one(chunk):
        for s in chunk:
            r = ck.tlc("Assembly", dict(ScenFile='"scen.json"', MaxBatch=0, Emit="TRUE"), files={"scen.json": [s]},
                       spec="Spec", invariants=["EmitAll"], workers=1, heap="2g")
            exp[s["id"]] = r.records[0]
            views = ["FULL", "UPPER", "LOWER"] if len(s["cells"]) < 4 or ck.thorough else [("FULL", "UPPER", "LOWER")[int(s["id"][1:]) % 3]]
            ck.pool([("replay", dict(s=s, e=r.records[0], views=views, all=ck.thorough))], nproc=1)
            ck.traces += 1
    MX = mixed_scenarios(ck.seed, ck.thorough)
    PL = [("FULL", "std"), ("UPPER", "universal"), ("LOWER", "extra"), ("UPPER", "std")]
    def mix(x):
        r = ck.tlc("MixedForms", dict(ScenFile='"s.json"', Emit="TRUE"), files={"s.json": [x]}, spec="Spec", invariants=["EmitAll"], workers=1, heap="2g")
        ck.pool([("mixed", dict(s=x, e=r.records[0], plan=PL if ck.thorough else [PL[x["id"] % 2 * 3], PL[1 + x["id"] % 2]]))], nproc=1); ck.traces += 1
    weight = sorted(S, key=lambda s: -len(s["cells"]) * sum(s["vecs"]) ** 2 * 4 ** s["dim"])
    ck.threads([design] + [(mix, x) for x in sorted(MX, key=lambda x: -len(x["u"]) * x["dim"])] + [(one, [s]) for s in weight], 8)
    ck.sample(dict(scenario={k: v for k, v in S[0].items()}, expected=exp.get("s0")))
    ck.assumptions.append("cells are axis-aligned boxes (QUAD4/HEX8) with the 2-point Gauss rule, or affine simplices of mixed order (TRI3/TRI6, TET4/TET10) with an exact rule; curved and distorted cells are covered by C18")


def kernels(prob, vecs, orders, form, surf):
    """element kernels written out by hand from the pointwise form: what get_universal_kernel / get_extra_kernel / get_universal_kernels_surface accept.
    form(vals, grads, x, *vars at the point) -> (mass terms, flux terms); surf[n](vals, x, *vars) -> tractions"""
    import jax, jax.numpy as jnp, numpy as np
    nn = [f.num_nodes for f in prob.fes]; cut = np.cumsum([0] + nn); sh = [f.shape_vals for f in prob.fes]
    def volume(flat, x, grads, JxW, vg, *iv):
        us = prob.unflatten_fn_dof(flat); nq = x.shape[0]
        vals = [sh[i] @ u for i, u in enumerate(us)]; gr = [jnp.einsum("nv,qnd->qvd", u, grads[:, cut[i]:cut[i + 1]]) for i, u in enumerate(us)]
        M, F = jax.vmap(form)(vals, gr, x, *iv)
        out = [jnp.einsum("qv,qn,q->nv", M[i], sh[i], JxW[i]) + jnp.einsum("qvd,qnd,q->nv", F[i], grads[:, cut[i]:cut[i + 1]], JxW[i]) for i in range(len(us))]
        return jax.flatten_util.ravel_pytree(out)[0]
    def face(f):
        def k(flat, x, fsv, fsg, sc, *iv):
            us = prob.unflatten_fn_dof(flat); vals = [fsv[:, cut[i]:cut[i + 1]] @ u for i, u in enumerate(us)]
            t = jax.vmap(f)(vals, x, *iv)
            return jax.flatten_util.ravel_pytree([jnp.einsum("qv,qn,q->nv", t[i], fsv[:, cut[i]:cut[i + 1]], sc[i]) for i in range(len(us))])[0]
        return k
    return volume, [face(f) for f in surf]


def build(s, view, energy=False, route="std"):
    """route: std = tensor/mass/surface maps (or weak forms); universal = everything in universal kernels; extra = the mass part in the additive kernel,
    half of the traction in universal surface kernels; energy+ = an energy density plus a mass map"""
    import jax.numpy as jnp, numpy as np, feax as fe
    from feax.mesh import Mesh
    dim = s["dim"]; h = np.array(s["h"], float)
    mesh = Mesh(np.array(s["pts"], float) * h, np.array(s["cells"]), ele_type="QUAD4" if dim == 2 else "HEX8")
    A, B, src = (jnp.array(s[k], float) for k in ("A", "B", "src"))
    al, be = s["al"], s["be"]
    xe = jnp.array(s["xe"], float)
    cut = np.cumsum([0] + s["vecs"]); nv = len(s["vecs"])
    split = lambda a: [a[cut[i]:cut[i + 1]] for i in range(nv)]
    massf = lambda u, x, k, m: m * (1 + be * u[0]) * (B @ u) + src * (1 + x @ xe)
    trac = [(lambda S: lambda u, x, t: t * (jnp.array(S["T"], float) * (1 + x @ xe) + S["ga"] * u))(S) for S in s["surfs"]]
    half = [(lambda f: lambda u, x, t: 0.5 * f(u, x, t))(f) for f in trac]
    smaps = half if route == "extra" and nv == 1 else trac
    def form(what):
        def wf(vals, grads, x, k, m):
            u = jnp.concatenate(vals); g = jnp.concatenate(grads)
            M = massf(u, x, k, m); F = k * (1 + al * u[0]) * (A @ g)
            return split(M * ("m" in what)), split(F * ("f" in what))
        return wf
    kinds = (s["kkind"], s["mkind"])
    def quadvars(f, sh):                            # nodal variables arrive by cell node, cell variables as one number
        def k(flat, x, grads, JxW, vg, *iv):
            q = [sh @ v if kd == "node" else jnp.full(x.shape[0], v) if jnp.ndim(v) == 0 else v for kd, v in zip(kinds, iv)]
            return f(flat, x, grads, JxW, vg, *q)
        return k
    class P(fe.Problem):
        if nv == 1 and route != "universal":
            if energy or route == "energy+":
                def get_energy_density(self): return lambda g, k, m: 0.5 * k * jnp.einsum("il,ld,id->", A, g, g)
            else:
                def get_tensor_map(self): return lambda g, k, m: k * (A @ g)
            if not energy and route != "extra":
                def get_mass_map(self): return massf
            def get_surface_maps(self): return [] if energy else smaps
        elif route != "universal":
            def get_weak_form(self): return form("f" if route == "extra" else "mf")
            def get_surface_weak_forms(self): return [(lambda f: lambda vals, x, t: split(f(jnp.concatenate(vals), x, t)))(f) for f in trac]
        if route in ("universal", "extra"):
            def _ker(self): return kernels(self, s["vecs"], None, form("m" if route == "extra" else "mf"),
                                           [(lambda f: lambda vals, x, t: split(f(jnp.concatenate(vals), x, t)))(f) for f in (half if route == "extra" else trac)])
            if nv == 1 or route == "universal":
                def get_universal_kernels_surface(self): return self._ker()[1]
        if route == "universal":
            def get_universal_kernel(self): return quadvars(self._ker()[0], self.fes[0].shape_vals)
        if route == "extra":
            def get_extra_kernel(self): return quadvars(self._ker()[0], self.fes[0].shape_vals)
    loc = [(lambda S: lambda x: jnp.isclose(x[S["ax"]], S["v"] * h[S["ax"]], atol=1e-5))(S) for S in s["surfs"]]
    et = "QUAD4" if dim == 2 else "HEX8"
    kw = dict(dim=dim, location_fns=(loc or None) if not energy else None, matrix_view=view)
    if nv == 1:
        return P(mesh, vec=s["vecs"][0], ele_type=et, **kw)
    return P([mesh] * nv, vec=list(s["vecs"]), ele_type=[et] * nv, gauss_order=[None] * nv, **kw)


def params(s, prob):
    import numpy as np, jax.numpy as jnp, feax as fe
    h = np.array(s["h"], float); X = np.array(s["pts"], float) * h
    def var(kind, val):
        if kind in ("node", "cell"): return jnp.array(val, float)
        if kind == "unif":
            return fe.TracedParams.create_cell_var(prob, float(val))
        qp = np.asarray(prob.physical_quad_points)
        out = np.zeros(qp.shape[:2])
        for c, nodes in enumerate(s["cells"]):
            for q in range(qp.shape[1]):
                a = int(np.argmin(np.sum(((X[nodes] - qp[c, q]) / h) ** 2, axis=1)))
                out[c, q] = val[c][a]
        return jnp.array(out)
    sv = []
    for si, S in enumerate(s["surfs"]):
        qp = np.asarray(prob.physical_surface_quad_points[si])
        t = np.zeros(qp.shape[:2])
        bi = np.asarray(prob.boundary_inds_list[si])
        byface = {f["c"]: f for f in s["faces"] if f["s"] == si + 1}
        for r in range(len(bi)):
            f = byface.get(int(bi[r, 0]))
            if f is None: continue
            for q in range(qp.shape[1]):
                a = int(np.argmin(np.sum(((X[f["nodes"]] - qp[r, q]) / h) ** 2, axis=1)))
                t[r, q] = f["t"][a]
        sv.append((jnp.array(t),))
    return fe.TracedParams(volume_vars=(var(s["kkind"], s["kval"]), var(s["mkind"], s["mval"])), surface_vars=sv)


def replay(emit, a):
    import numpy as np, jax, jax.numpy as jnp, feax as fe
    from feax import assembler as asm
    from vlib import close, err
    s, e = a["s"], a["e"]
    n = len(s["u"])
    dF, dM, dS, dT = e["den"]
    res = np.zeros(n); resF = np.zeros(n)
    for d, f, m, q, t in e["res"]:
        res[d] += zval(f) / dF + zval(m) / dM + zval(q) / dS + zval(t) / dT
        resF[d] += zval(f) / dF
    J = np.zeros((n, n)); JF = np.zeros((n, n)); pat = np.zeros((n, n), bool)
    for i, j, f, m, t in e["jac"]:
        J[i, j] = zval(f) / dF + zval(m) / dM + zval(t) / dT
        JF[i, j] = zval(f) / dF
        pat[i, j] = True
    u = jnp.array(s["u"], float)
    sid = s["id"]
    def cmp(key, got, want, clause):
        emit(f"{sid}:{key}", close(got, want, 1e-9), clause, err(got, want))
    def csr_dense(M):
        """dense form, built here from the raw triple so that stored entries are observed one by one"""
        ip, ix, d = np.asarray(M.indptr), np.asarray(M.indices), np.asarray(M.data)
        D = np.zeros((n, n)); seen = np.zeros((n, n), int)
        for r in range(n):
            for p in range(ip[r], ip[r + 1]):
                D[r, ix[p]] += d[p]; seen[r, ix[p]] += 1
        return D, seen
    big = n > 200
    views = a["views"]
    rng = np.random.default_rng(5)
    v = jnp.array(rng.integers(-3, 4, n), float)
    for view in views:
        keep = {"FULL": np.ones((n, n), bool), "UPPER": np.triu(np.ones((n, n), bool)), "LOWER": np.tril(np.ones((n, n), bool))}[view]
        prob = build(s, view); tp = params(s, prob)
        nsel = [sum(1 for f in s["faces"] if f["s"] == k + 1) for k in range(len(s["surfs"]))]
        emit(f"{sid}:{view}:faces", [len(b) for b in prob.boundary_inds_list] == nsel, "every selected boundary face once", str(nsel))
        ul = prob.unflatten_fn_sol_list(u)
        flat = lambda r: jnp.concatenate([x.reshape(-1) for x in r])
        cmp(f"{view}:res", flat(fe.get_res(prob, ul, tp)), res, "residual is the sum of contributions")
        JJ = fe.get_jacobian(prob, ul, tp)
        D, seen = csr_dense(JJ)
        cmp(f"{view}:jac", D, J * keep, "tangent is the sum of contributions")
        emit(f"{sid}:{view}:pattern", seen.max() <= 1 and np.all(seen[(J != 0) & keep] == 1) and not seen[~keep].any(), "one stored entry per pair, none outside the view", "")
        cmp(f"{view}:matvec", JJ @ v, (J * keep) @ np.asarray(v), "stored matrix acts as the tangent")
        cmp(f"{view}:rmatvec", JJ.T @ v, (J * keep).T @ np.asarray(v), "transposed stored matrix acts as the transpose")
        cmp(f"{view}:diag", JJ.diagonal(), np.diag(J), "stored diagonal")
        if not big:
            cmp(f"{view}:dense", JJ.todense(), J * keep, "dense form")
        cmp(f"{view}:jit-res", jax.jit(lambda uu, tp: flat(fe.get_res(prob, prob.unflatten_fn_sol_list(uu), tp)))(u, tp), res, "compiled residual")
        # with the precomputed structure
        nobc = fe.DirichletBCConfig([]).create_bc(prob)
        ts = fe.TracedStructure.from_problem(prob, free_scratch=False)
        cmp(f"{view}:ts-res", flat(fe.get_res(prob, ul, tp, ts)), res, "residual via structure")
        D, _ = csr_dense(fe.get_jacobian(prob, ul, tp, ts))
        cmp(f"{view}:ts-jac", D, J * keep, "tangent via structure")
        r2, J2 = jax.jit(asm.create_res_J_bc_csr_parametric(prob, symmetric=True))(u, tp, nobc, ts)
        cmp(f"{view}:fused-res", r2, res, "fused residual"); D, _ = csr_dense(J2); cmp(f"{view}:fused-jac", D, J * keep, "fused tangent")
        r2, J2 = asm.create_res_J_bc_csr_parametric(prob, symmetric=True)(u, tp, nobc)
        cmp(f"{view}:fused-nots-res", r2, res, "fused residual"); D, _ = csr_dense(J2); cmp(f"{view}:fused-nots-jac", D, J * keep, "fused tangent")
        J3 = jax.jit(asm.create_J_bc_csr_parametric(prob, symmetric=True))(u, tp, nobc, ts)
        D, _ = csr_dense(J3); cmp(f"{view}:par-jac", D, J * keep, "parametric tangent")
        J4 = fe.create_J_bc_csr_function(prob, nobc)(u, tp)
        D, _ = csr_dense(J4); cmp(f"{view}:fn-jac", D, J * keep, "tangent function")
        cmp(f"{view}:fn-res", fe.create_res_bc_function(prob, nobc)(u, tp), res, "residual function")
        r5, mv = asm.create_matfree_res_J_parametric(prob, symmetric=True)(u, tp, nobc, ts)
        cmp(f"{view}:mf-res", r5, res, "matrix-free residual"); cmp(f"{view}:mf-jac", mv(v), J @ np.asarray(v), "matrix-free tangent")
        cmp(f"{view}:mf-KT", asm.create_matfree_Kt_parametric(prob)(u, tp, ts)(v), J.T @ np.asarray(v), "matrix-free transpose")
        # the structure after the scratch data was released
        ts2 = fe.TracedStructure.from_problem(prob)
        cmp(f"{view}:ts2-res", flat(fe.get_res(prob, ul, tp, ts2)), res, "residual via structure, scratch released")
        D, _ = csr_dense(fe.get_jacobian(prob, ul, tp, ts2)); cmp(f"{view}:ts2-jac", D, J * keep, "tangent via structure, scratch released")
        # batched over the state
        rv = jax.vmap(lambda uu: flat(fe.get_res(prob, prob.unflatten_fn_sol_list(uu), tp, ts2)))(jnp.stack([u, 0 * u, u]))
        cmp(f"{view}:vmap-res", rv[2], res, "batched residual")
    for route in ["universal", "extra"] + (["energy+"] if len(s["vecs"]) == 1 and s["sym"] and s["al"] == 0 else []):
        if not a["all"] and route in ("universal", "extra") and route != ("universal", "extra")[int(sid[1:]) % 2]: continue
        view = views[0]; keep = {"FULL": np.ones((n, n), bool), "UPPER": np.triu(np.ones((n, n), bool)), "LOWER": np.tril(np.ones((n, n), bool))}[view]
        prob = build(s, view, route=route); tp = params(s, prob); ul = prob.unflatten_fn_sol_list(u)
        r1, J1 = jax.jit(lambda uu, tp: (flat(fe.get_res(prob, prob.unflatten_fn_sol_list(uu), tp)), fe.get_jacobian(prob, prob.unflatten_fn_sol_list(uu), tp)))(u, tp)
        cmp(f"{route}:res", r1, res, "residual is the sum of contributions"); cmp(f"{route}:jac", csr_dense(J1)[0], J * keep, "tangent is the sum of contributions")
        ts = fe.TracedStructure.from_problem(prob); r2, J2 = jax.jit(asm.create_res_J_bc_csr_parametric(prob, symmetric=True))(u, tp, fe.DirichletBCConfig([]).create_bc(prob), ts)
        cmp(f"{route}:fused-res", r2, res, "fused residual"); cmp(f"{route}:fused-jac", csr_dense(J2)[0], J * keep, "fused tangent")
        r5, j5, k5 = jax.jit(lambda u, tp, v: (lambda rm: (rm[0], rm[1](v), asm.create_matfree_Kt_parametric(prob)(u, tp, ts)(v)))(asm.create_matfree_res_J_parametric(prob, symmetric=True)(u, tp, fe.DirichletBCConfig([]).create_bc(prob), ts)))(u, tp, v)
        cmp(f"{route}:mf-res", r5, res, "matrix-free residual"); cmp(f"{route}:mf-jac", j5, J @ np.asarray(v), "matrix-free tangent"); cmp(f"{route}:mf-KT", k5, J.T @ np.asarray(v), "matrix-free transpose")
    if len(s["vecs"]) == 1 and s["sym"] and s["al"] == 0:
        prob = build(s, "FULL", energy=True); tp = params(dict(s, surfs=[]), prob)
        E = fe.create_energy_fn(prob)
        un = np.asarray(u)
        cmp("energy", E(u, tp), 0.5 * un @ JF @ un, "energy is the quadratic form")
        cmp("energy-grad", jax.grad(E)(u, tp), resF, "energy gradient is the residual")
        cmp("energy-res", flat(fe.get_res(prob, prob.unflatten_fn_sol_list(u), tp)), resF, "residual from the energy density")
