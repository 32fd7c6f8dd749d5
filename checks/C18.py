"""C18 elements.  Spec: spec/ElementBasis.tla (+ Elements.tla).  TLC proves the exact shape functions nodal and complete for their
space and computes exact volumes, moments, areas; the library's tables are checked by reproduction of that whole space at
its own quadrature points on affine images of shuffled meshes, and by patch tests through the solver."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

T2 = ["TRI3", "TRI6", "QUAD4", "QUAD8", "QUAD9"]; T3 = ["TET4", "TET10", "HEX8", "HEX20"]


def det(A):
    return A[0][0] * A[1][1] - A[0][1] * A[1][0] if len(A) == 2 else sum(A[0][j] * (A[1][(j + 1) % 3] * A[2][(j + 2) % 3] - A[1][(j + 2) % 3] * A[2][(j + 1) % 3]) for j in range(3))


def scen(rng, e, k):
    d = 2 if e in T2 else 3
    n = [rng.randint(1, 3) for _ in range(d)] if d == 2 else rng.choice([[1, 1, 1], [2, 1, 1], [1, 1, 2], [1, 2, 1]])
    while True:
        A = [[rng.randint(-2, 3) for _ in range(d)] for _ in range(d)]
        if 0 < det(A) <= 12: break
    if k == 0: A = [[int(i == j) for j in range(d)] for i in range(d)]
    return dict(id=f"{e}.{k}", ele=e, n=n, A=A, b=[rng.randint(-2, 3) for _ in range(d)])


def main(ck):
    rng = ck.rng(ck.seed + 1)
    per = 14 if ck.thorough else 3
    S = [scen(rng, e, k) for e in T2 + T3 for k in range(per)]
    r = ck.tlc("ElementBasis", dict(ScenFile='"s.json"', Emit="TRUE"), files={"s.json": S}, spec="Spec", invariants=["BasisExact", "Divergence"], workers=1)
    exp = {x["id"]: x for x in r.records}
    ck.traces += len(S)
    ck.sample(S[1]); ck.sample(exp[S[1]["id"]])
    items = [(s, exp[s["id"]]) for s in S]
    jobs = [("tables", dict(items=[x for x in items if x[0]["ele"] == e], seed=ck.seed)) for e in T3 + T2]
    jobs += [("patch", dict(types=[e], seed=ck.seed, n=3 if ck.thorough else 1)) for e in T3] + [("patch", dict(types=T2, seed=ck.seed, n=4 if ck.thorough else 2))]
    ck.pool(jobs, nproc=8)
    ck.assumptions += ["quadrature of order g is required to be exact for polynomials of degree max(g, 1)"]


def poly(ex, X):
    import numpy as np
    v = np.prod([X[..., k] ** a for k, a in enumerate(ex)], axis=0)
    g = np.stack([(a * X[..., k] ** (a - 1) if a else 0 * X[..., k]) * np.prod([X[..., j] ** b for j, b in enumerate(ex) if j != k] + [np.ones(X.shape[:-1])], axis=0) for k, a in enumerate(ex)], -1)
    return v, g


def hessp(ex, X):
    import numpy as np
    d = len(ex); H = np.zeros(X.shape[:-1] + (d, d))
    for i in range(d):
        for j in range(d):
            e = list(ex); c = e[i]; e[i] -= 1
            if c == 0: continue
            c2 = e[j]
            if c2 == 0: continue
            e[j] -= 1
            H[..., i, j] = c * c2 * np.prod([X[..., k] ** a for k, a in enumerate(e)], axis=0)
    return H


def tables(emit, arg):
    import numpy as np, jax.numpy as jnp
    import feax as fe, fx
    from feax.fe import FiniteElement
    rng = random.Random(arg["seed"])
    for s, x in arg["items"]:
        e, d = s["ele"], len(s["n"])
        pts, cells = fx.ref_mesh(e, s["n"], rng)
        X = np.array(pts, float) / 2; A = np.array(s["A"], float); b = np.array(s["b"], float)
        Y = X @ A.T + b
        mesh = fe.Mesh(Y, np.array(cells), ele_type=e)
        Ai = np.linalg.inv(A); nn = len(X)
        dflt = dict(TRI3=0, TRI6=2, QUAD4=2, QUAD8=2, QUAD9=4, TET4=0, TET10=2, HEX8=2, HEX20=2)[e]
        for g in (None, 1, 2, 3, 4) if s["id"].endswith(".0") else (None, rng.choice([2, 3, 4])):
            key = f"{s['id']}:g{g}"; deg = max(1, dflt if g is None else g)
            f = FiniteElement(mesh=mesh, vec=1, dim=d, ele_type=e, gauss_order=g, hess=True)
            xq = np.asarray(f.get_physical_quad_points()); JxW = np.asarray(f.JxW); sc = abs(x["vol"]) * (1 + np.abs(Y).max()) ** 2
            tol = 1e-11 * sc
            emit(key + ":vol", abs(JxW.sum() - x["vol"]) < tol, "volume", dict(got=JxW.sum(), want=x["vol"]))
            emit(key + ":pos", bool((JxW.sum(1) > 0).all()), "volume")
            m1 = np.einsum("cq,cqp->p", JxW, xq); emit(key + ":m1", bool(np.abs(m1 - np.array(x["m1"]) / 2).max() < tol), "moments")
            if deg >= 2:
                m2 = np.einsum("cq,cqp,cqr->pr", JxW, xq, xq); emit(key + ":m2", bool(np.abs(m2 - np.array(x["m2"]) / 12).max() < tol), "moments", dict(got=m2, want=np.array(x["m2"]) / 12))
            emit(key + ":unity", bool(np.abs(np.asarray(f.shape_vals).sum(1) - 1).max() < 1e-12), "partition-of-unity")
            # the whole space of the element, in the coordinates of the undeformed box
            XQ = (xq - b) @ Ai.T
            for ex in x["exps"]:
                vn, _ = poly(ex, X); v, gX = poly(ex, XQ); gx = gX @ Ai       # dX/dx = Ai
                sol = jnp.array(vn)[:, None]; sca = 1 + np.abs(v).max() + np.abs(gx).max()
                got = np.asarray(f.convert_from_dof_to_quad(sol))[..., 0]
                emit(f"{key}:val{ex}", bool(np.abs(got - v).max() < 1e-10 * sca), "reproduces-values", dict(err=np.abs(got - v).max(), mono=ex))
                gg = np.asarray(f.sol_to_grad(sol))[..., 0, :]
                emit(f"{key}:grad{ex}", bool(np.abs(gg - gx).max() < 1e-10 * sca), "reproduces-gradients", dict(err=np.abs(gg - gx).max(), mono=ex))
                H = np.asarray(f.shape_hessians); hg = np.einsum("cqnij,cn->cqij", H, vn[np.asarray(cells)]); hx = np.einsum("cqij,ik,jl->cqkl", hessp(ex, XQ), Ai, Ai)
                emit(f"{key}:hess{ex}", bool(np.abs(hg - hx).max() < 1e-9 * (sca + np.abs(hx).max())), "reproduces-hessians", dict(err=np.abs(hg - hx).max(), mono=ex))
            # boundary faces
            fns = []
            for fc in x["faces"]:
                a, v = fc["axis"] - 1, fc["side"] * s["n"][fc["axis"] - 1]
                fns.append(lambda p, a=a, v=v: jnp.isclose((jnp.array(Ai) @ (p - jnp.array(b)))[a], v, atol=1e-4))
            wrapped = []
            for fn in fns:
                def one(p, fn=fn): return fn(p)
                wrapped.append(eval("lambda p: F(p)", {"F": fn}))
            for fc, bi in zip(x["faces"], f.get_boundary_conditions_inds(wrapped)):
                kf = f"{key}:face{fc['axis']}{fc['side']}"
                gr, nan = f.get_face_shape_grads(bi); gr, nan = np.asarray(gr), np.asarray(nan)
                area = fc["mult"] * np.sqrt(fc["area2"]); fq = np.asarray(f.get_physical_surface_quad_points(bi))
                emit(kf + ":area", abs(nan.sum() - area) < 1e-11 * (1 + area) and bool((nan.sum(1) > 0).all()), "face-area", dict(got=nan.sum(), want=area))
                cen = np.einsum("fq,fqp->p", nan, fq); want = area * np.array(fc["cen2"]) / 2
                emit(kf + ":centroid", bool(np.abs(cen - want).max() < 1e-10 * (1 + area) * (1 + np.abs(Y).max())), "face-centroid", dict(got=cen, want=want))
                FX = (fq - b) @ Ai.T; cl = np.asarray(cells)[np.asarray(bi)[:, 0]]
                emit(kf + ":on", bool(np.abs(FX[..., fc["axis"] - 1] - fc["side"] * s["n"][fc["axis"] - 1]).max() < 1e-9), "face-points-on-face")
                for ex in x["exps"]:
                    vn, _ = poly(ex, X); v, gX = poly(ex, FX); gx = gX @ Ai; sca = 1 + np.abs(v).max() + np.abs(gx).max()
                    got = np.asarray(f.convert_from_dof_to_face_quad(jnp.array(vn)[:, None], bi))[..., 0]
                    gg = np.einsum("fqnp,fn->fqp", gr, vn[cl])
                    emit(f"{kf}:val{ex}", bool(np.abs(got - v).max() < 1e-10 * sca), "face-values", dict(mono=ex))
                    emit(f"{kf}:grad{ex}", bool(np.abs(gg - gx).max() < 1e-10 * sca), "face-gradients", dict(mono=ex))


def patch(emit, arg):
    """linear fields (all types, distorted interior nodes for the linear types) and quadratic fields (quadratic types, affine cells)"""
    import numpy as np, jax.numpy as jnp
    import feax as fe, fx
    from feax.fe import FiniteElement
    rng = random.Random(arg["seed"] + 3); nr = np.random.default_rng(arg["seed"])
    for e in arg["types"]:
        d = 2 if e in T2 else 3
        for k in range(arg["n"]):
            n = [2 + (k % 2), 2] if d == 2 else [2, 2, 2]
            pts, cells = fx.ref_mesh(e, n, rng)
            X = np.array(pts, float) / 2; hi = np.array(n, float)
            bnd = ((X == 0) | (X == hi)).any(1)
            Y = X.copy(); lin = e in ("TRI3", "QUAD4", "TET4", "HEX8")
            if lin: Y[~bnd] += nr.uniform(-.2, .2, size=Y[~bnd].shape)
            A = np.eye(d) + nr.uniform(-.3, .3, (d, d)); Y = Y @ A.T
            quad = not lin
            K = np.diag(nr.uniform(1, 2, d)); c = nr.normal(size=d); Q = nr.normal(size=(d, d)); Q = Q + Q.T
            u = (lambda x: x @ c + 0.5 * np.einsum("...i,ij,...j", x, Q, x)) if quad else (lambda x: x @ c)
            src = float(np.trace(K @ Q)) if quad else 0.0
            Kj = jnp.array(K)
            class P(fe.Problem):
                def get_tensor_map(self): return lambda g: g @ Kj
                def get_mass_map(self): return lambda v, x: jnp.full_like(v, src)
            mesh = fe.Mesh(Y, np.array(cells), ele_type=e)
            p = P(mesh=mesh, vec=1, dim=d, ele_type=e, gauss_order=4 if quad else None, location_fns=[])
            cj, Qj = jnp.array(c), jnp.array(Q); tab = jnp.array(Y[bnd])
            loc = lambda x: jnp.any(jnp.all(jnp.isclose(x, tab, atol=1e-7), axis=-1))
            val = (lambda x: x @ cj + 0.5 * x @ Qj @ x) if quad else (lambda x: x @ cj)
            bc = fe.DirichletBCConfig([fe.DirichletBCSpec(loc, "all", val)]).create_bc(p)
            sv = fe.create_solver(p, bc, fe.DirectSolverOptions(solver="spsolve"), linear=True, traced_params=fe.TracedParams())
            sol = np.asarray(sv(fe.TracedParams())).reshape(-1); want = u(Y)
            emit(f"patch:{e}.{k}", bool(np.abs(sol - want).max() < 1e-8 * (1 + np.abs(want).max())), "patch-test", dict(err=np.abs(sol - want).max(), free=int((~bnd).sum())))
            emit(f"patch:{e}.{k}:free", int((~bnd).sum()) > 0, "harness")
            if lin:
                f = FiniteElement(mesh=mesh, vec=1, dim=d, ele_type=e)
                emit(f"patch:{e}.{k}:vol", abs(np.asarray(f.JxW).sum() - np.prod(hi) * np.linalg.det(A)) < 1e-10 * np.prod(hi) * 2, "volume-distorted")
