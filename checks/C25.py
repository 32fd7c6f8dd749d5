"""C25 implicit geometry of density fields.  Spec: Field (exact finite element interpolation on distorted meshes, constructive geometry, slabs of exactly known volume).  Replayed through
feax.gene.sdf (single and batched queries, CSG, files, marching cubes) and feax.gene.mesh_extraction."""
import math, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
TY2, TY3 = ["TRI3", "TRI6", "QUAD4", "QUAD8", "QUAD9"], ["TET4", "TET10", "HEX8", "HEX20"]
SIMP = ("TRI3", "TRI6", "TET4", "TET10")


def gen(rng, T):
    import fx, numpy as np
    S = []; R = rng.randint
    for k in range(36 if T else 18):
        e = (TY2 + TY3)[k % 9]; d = 2 if e in TY2 else 3; dims = [R(2, 5) if d == 2 else R(1, 3) for _ in range(d)]
        if k % 9 == k: dims = [6, 7] if d == 2 else [3, 3, 3] if e in SIMP else [3, 3, 2]
        P, C = fx.ref_mesh(e, dims, rng); P = np.array(P); ncor = fx.NCORN[e] if isinstance(fx.NCORN, dict) else fx.NCORN(e); C = np.array(C)
        # distort: lattice points move by less than a quarter cell, then a shear with determinant > 0; intermediate nodes keep their place between their corners
        pos = {}
        for n in sorted({int(x) for c in C for x in c[:ncor]}): pos[n] = 8 * P[n] + np.array([R(-1, 1) for _ in range(d)]) * (1 if d == 2 else rng.choice([0, 1, 1])) * 2
        A = np.eye(d, dtype=int)
        for _ in range(R(0, 2)):
            a, b = rng.sample(range(d), 2); E = np.eye(d, dtype=int); E[a, b] = rng.choice([-1, 1]); A = A @ E
        W = np.zeros_like(P); low = {"TRI6": "TRI3", "QUAD8": "QUAD4", "QUAD9": "QUAD4", "TET10": "TET4", "HEX20": "HEX8"}.get(e)
        for c in C:
            for a, n in enumerate(c):
                if a < ncor: W[n] = pos[int(n)]
                else:
                    r = np.array(fx.REF[e][a]) / 2                                                  # straight intermediate nodes: the corner map there
                    if e in SIMP: N = np.array([1 - r.sum()] + list(r))
                    else: N = np.array([np.prod([x if y else 1 - x for x, y in zip(r, np.array(q) // 2)]) for q in fx.REF[e][:ncor]])
                    W[n] = sum(w * pos[int(m)] for w, m in zip(N, c[:ncor]))
        if low and e not in SIMP and rng.random() < .5:  # slightly curved
            W = W + np.array([[R(-1, 1) if n not in pos else 0 for _ in range(d)] for n in range(len(P))])
        if k % 4 == 1: W[:, R(0, d - 1)] *= rng.choice([6, 12])                                              # elongated cells: the holder is not among the nearest centroids
        W = W @ A.T + np.array([R(-20, 20) for _ in range(d)])
        nf = R(1, 2) if k % 3 else 2; rho = [[R(0, 6) for _ in P] for _ in range(nf)]
        pts = []
        for c in range(len(C)):
            for _ in range(4 if d == 2 else (2 if e in SIMP else 4)):
                while 1:
                    r = [R(0, 4) for _ in range(d)]
                    if e not in SIMP or sum(r) <= 4: break
                pts.append(dict(c=c + 1, r=r))
        trees = []
        for _ in range(2):
            t = [dict(op="leaf", f=R(1, nf), a=0, b=0) for _ in range(R(2, 3))]
            while len(t) < 5: t.append(dict(op=rng.choice(["or", "and", "sub"]), f=0, a=R(1, len(t)), b=len(t)))
            trees.append(t)
        S.append(dict(kind="field", ele=e, pts=W.tolist(), cells=C.tolist(), rho=rho, thr=[R(1, 5) for _ in range(nf)], q=pts, trees=trees, scale=rng.choice([1., .125, 1e-3, 100.])))
    for k in range(12 if T else 6):
        n = R(2, 6); e = ["HEX8", "TET4"][k % 2]; dims = [n, R(1, 2), R(1, 3)]
        while 1:
            v = [R(0, 8) for _ in range(n + 1)]; t = R(1, 8)
            if k == 0: v = [8, 0] * ((n + 1) // 2) + [8] * ((n + 1) % 2); t = 3
            if t not in v and max(v) > t: break
        P, C = fx.ref_mesh(e, dims, rng); A = [[1, 0, 0], [0, 1, 0], [0, 0, 1]] if k < 2 else [[1, R(-1, 1), 0], [0, 1, R(-1, 1)], [0, 0, 1]] if k % 3 else [[2, 0, 0], [0, 1, 0], [0, 0, 1]]
        S.append(dict(kind="slab", ele=e, v=v, t=t, dims=dims, P=P, C=C, A=A, axis=R(0, 2), grid=int(e == "HEX8"), gm=int(k < 2)))
    for i, s in enumerate(S): s["id"] = i
    return S


def main(ck):
    rng = ck.rng(ck.seed * 11 + 25); S = gen(rng, ck.thorough); keep = {"field": ("id", "kind", "ele", "pts", "cells", "rho", "thr", "q", "trees"), "slab": ("id", "kind", "v", "t")}
    chunks = [S[j::4] for j in range(4)]; R = []
    ck.threads([lambda c=c: R.append(ck.tlc("Field", dict(ScenFile='"s.json"', Emit="TRUE"), files={"s.json": [{k: s[k] for k in keep[s["kind"]]} for s in c]}, spec="FSpec", invariants=["SingleValued", "Valid", "SetAlgebra", "Complement"], workers=1)) for c in chunks], 4)
    rec = {x["id"]: x for r in R for x in r.records}; ck.traces += len(rec); items = [(s, rec[s["id"]]) for s in S]; ck.sample(dict(fields=sum(s["kind"] == "field" for s in S), points=sum(len(s["q"]) for s in S if s["kind"] == "field")))
    F = [x for x in items if x[0]["kind"] == "field"]; L = [x for x in items if x[0]["kind"] == "slab"]
    ck.pool([("fields", dict(items=F[i::4], seed=ck.seed + i)) for i in range(4)] + [("slabs", dict(items=L[i::3], seed=ck.seed + i)) for i in range(3)], nproc=7)
    ck.assumptions += ["query points are rational reference points of distorted cells; inverse mapping to 1e-6", "surfaces are extracted from linear cells with a density varying along one axis"]


def jaxs():
    import jax; jax.config.update("jax_enable_x64", True); jax.config.update("jax_platforms", "cpu"); return jax


def fields(emit, arg):
    jaxs(); import numpy as np, feax as fe, tempfile, meshio
    from feax.gene import sdf
    rng = random.Random(arg["seed"])
    for s, r in arg["items"]:
        key = f"f{s['id']}:{s['ele']}"; sc = s["scale"]; X = np.array(s["pts"], float) * sc; mesh = fe.Mesh(X, np.array(s["cells"]), s["ele"]); den = r["den"]; q = np.array([z["x"] for z in r["q"]], float) / den * sc; d = X.shape[1]
        fs = []
        for f, (rho, t) in enumerate(zip(s["rho"], s["thr"])):
            F = sdf.DensityField(np.array(rho, float) if f or rng.random() < .5 else np.array(rho, float)[:, None], mesh, threshold=float(t), **({} if rng.random() < .5 else dict(close_boundary=False))); fs.append(F); want = t - np.array([z["v"][f] for z in r["q"]], float) / den
            def cmp(tag, g, w=want, idx=None):
                g = np.asarray(g); bad = np.abs(g - w) > 2e-5 if g.shape == w.shape else None; emit(f"{key}.{f}:{tag}", bad is not None and not bad.any() and not np.isnan(g).any(), "signed value is threshold minus the interpolated density", "" if bad is not None and not bad.any() else (f"shape {g.shape}" if bad is None else f"{int(bad.sum())} of {len(w)} points, e.g. {q[np.argmax(bad)] if idx is None else ''}: {g[np.argmax(bad)]} expected {w[np.argmax(bad)]}"))
            perm = list(range(len(q))); rng.shuffle(perm); cmp("batch", F.evaluate(q)); cmp("perm", F.evaluate(q[perm]), want[perm], 0); few = perm[:8]; cmp("single", [F(q[j]) for j in few], want[few], 0); cmp("one", F.evaluate(q[few[:1]]), want[few[:1]], 0)
            cmp("nodes", F.evaluate(X), t - np.array(rho, float), 0); lo, hi = F.bounds; emit(f"{key}.{f}:bounds", bool(np.allclose(lo, X.min(0)) and np.allclose(hi, X.max(0))), "bounds", f"{lo} {hi}")
            C = sdf.DensityField(np.array(rho, float), mesh, threshold=float(t)); far = np.array([X.max(0) + 3 * (X.max(0) - X.min(0)), X.min(0) - 2 * (X.max(0) - X.min(0))]); far = np.concatenate([far, far * [1 if a else 0 for a in range(d)] + np.array([1. if a == 0 else 0. for a in range(d)]) * far[0]]); emit(f"{key}.{f}:far", bool(np.allclose(C.evaluate(far), t)) and all(abs(C(p) - t) < 1e-12 for p in far), "points far outside are void", f"{C.evaluate(far)}")
            O = sdf.DensityField(np.array(rho, float), mesh, threshold=float(t), close_boundary=False); D2 = [((X - p) ** 2).sum(1) for p in far]; okn = lambda g, D: bool(np.min(np.abs(t - np.array(rho, float)[D <= D.min() * (1 + 1e-9)] - g)) < 1e-9); emit(f"{key}.{f}:near", all(okn(g, D) for g, D in zip(O.evaluate(far), D2)) and all(okn(O(p), D) for p, D in zip(far, D2)), "open boundary: nearest node outside", f"{O.evaluate(far)}")
        for t, w in zip(s["trees"], r["csg"]):
            nodes = []
            for z in t: nodes.append(fs[z["f"] - 1] if z["op"] == "leaf" else nodes[z["a"] - 1] | nodes[z["b"] - 1] if z["op"] == "or" else nodes[z["a"] - 1] & nodes[z["b"] - 1] if z["op"] == "and" else nodes[z["a"] - 1] - nodes[z["b"] - 1])
            g = np.asarray(nodes[-1].evaluate(q)); w = np.array(w, float) / den; j = rng.randrange(len(q)); emit(f"{key}:csg", bool(np.abs(g - w).max() < 2e-5 and abs(nodes[-1](q[j]) - w[j]) < 2e-5), "combined bodies", f"{[z['op'] for z in t]} off {np.abs(g - w).max():.2e}")
        # through a file
        if s["ele"] == "QUAD9": continue
        with tempfile.TemporaryDirectory() as tmp:
            p = os.path.join(tmp, "a.vtu"); name = rng.choice(["density", "rho"]); fe.utils.save_sol(mesh, p, point_infos=[("other", np.ones((len(X), 1))), (name, np.array(s["rho"][0], float)[:, None])])
            try: g = sdf.from_vtk(p, **({} if name == "density" else dict(field_name="rho")), threshold=float(s["thr"][0])).evaluate(q); w = s["thr"][0] - np.array([z["v"][0] for z in r["q"]], float) / den; emit(key + ":vtk", bool(np.abs(g - w).max() < 2e-5), "field read from a file", f"off {np.abs(g - w).max():.2e}")
            except Exception as ex: emit(key + ":vtk", False, "field read from a file", f"{type(ex).__name__} {ex}")
            try: sdf.from_vtk(p, field_name="absent"); ok = False
            except KeyError: ok = True
            emit(key + ":absent", ok, "an absent field is refused", "")


def slabs(emit, arg):
    jaxs(); import numpy as np, feax as fe, tempfile, meshio, types
    from feax.gene import sdf, mesh_extraction as me
    rng = random.Random(arg["seed"])
    for s, r in arg["items"]:
        key = f"s{s['id']}:{s['ele']}"; P = np.array(s["P"], float) / 2; v = np.array(s["v"], float); x = P[:, 0]; k0 = np.minimum(x.astype(int), len(v) - 2); rho = v[k0] + (x - k0) * (v[k0 + 1] - v[k0]); A = np.array(s["A"], float); perm = [(a + s["axis"]) % 3 for a in range(3)]
        Wp = (P @ A.T)[:, perm]; mesh = fe.Mesh(Wp, np.array(s["C"]), s["ele"]); frac = sum((c["hi"] - c["lo"]) / c["d"] for c in r["cut"]); vol = frac * s["dims"][1] * s["dims"][2] * np.linalg.det(A)
        sc = 1 / 8; res = types.SimpleNamespace(rho_filtered=rho * sc, mesh=mesh); srf = me.from_opt_result(res, threshold=s["t"] * sc) if rng.random() < .3 else me.extract_surface(rho * sc, mesh, threshold=s["t"] * sc)
        emit(key + ":vol", abs(float(srf.volume) - vol) < 1e-5 * (1 + vol), "volume enclosed by the extracted surface", f"{srf.volume} expected {vol} for {s['v']} at {s['t']}")
        emit(key + ":closed", srf.n_open_edges == 0 and srf.is_manifold and srf.is_all_triangles, "the extracted surface is a closed triangle mesh", f"open edges {srf.n_open_edges} manifold {srf.is_manifold} triangles {srf.is_all_triangles}")
        Y = (np.asarray(srf.points)[:, np.argsort(perm)]) @ np.linalg.inv(A).T; xs = sorted({round(k + c[z] / c["d"], 5) for k, c in enumerate(r["cut"]) for z in ("lo", "hi") if c["hi"] > c["lo"]}); emit(key + ":in", bool(all(any(k - 1e-4 + c["lo"] / c["d"] <= y <= k + 1e-4 + c["hi"] / c["d"] for k, c in enumerate(r["cut"]) if c["hi"] > c["lo"]) for y in Y[:, 0])), "surface points lie on the solid", "")
        # a coarser split of components: slabs that do not touch are separate pieces
        emit(key + ":pieces", srf.split_bodies().n_blocks == r["comps"], "separate slabs are separate pieces", f"{srf.split_bodies().n_blocks} expected {r['comps']}")
        if s["gm"]:
            try: m = me.extract_volume_mesh(rho * sc, mesh, threshold=s["t"] * sc, mesh_size=1.); Z = np.asarray(m.points)[np.asarray(m.cells)[:, :4]]; g = float(np.abs(np.linalg.det(Z[:, 1:] - Z[:, :1])).sum() / 6); emit(key + ":gm", abs(g - vol) < 1e-3 * vol or r["comps"] > 1, "volume of the remeshed solid", f"{g} expected {vol}")
            except Exception as ex: emit(key + ":gm", r["comps"] > 1, "volume of the remeshed solid", f"{type(ex).__name__} {ex}")
        if np.array_equal(A, np.diag([2., 1, 1])) or s["grid"]:
            # marching cubes on a grid containing the mesh planes: vertices sit exactly at the crossings
            Pb = P * np.array([2., 1., 1.]); bm = fe.Mesh(Pb[:, perm] + 1.5, np.array(s["C"]), s["ele"]); F = sdf.from_opt_result(types.SimpleNamespace(rho_filtered=rho, mesh=bm), threshold=float(s["t"])) if rng.random() < .5 else sdf.DensityField(rho, bm, threshold=float(s["t"])); n = len(v) - 1; lo, hi = F.bounds; ax = int(np.argsort(perm)[0])
            if r["cross"]:
                V, Fc = F.to_mesh(resolution=2 * n + 1); ax = int(np.argsort(perm)[0]); cr = [2 * (k + (s["t"] - v[k]) / (v[k + 1] - v[k])) + 1.5 for k in range(n) if (v[k] - s["t"]) * (v[k + 1] - s["t"]) < 0]; e1 = max(min(abs(y - c) for c in cr) for y in V[:, ax]); e2 = max(np.abs(V[:, ax] - c).min() for c in cr)
                emit(key + ":mc", bool(e1 < 1e-4 and e2 < 1e-4 and np.allclose(np.delete(V.min(0), ax), np.delete(lo, ax), atol=1e-5) and np.allclose(np.delete(V.max(0), ax), np.delete(hi, ax), atol=1e-5)), "marching cubes surface lies at the threshold", f"{e1} {e2} {V.min(0)} {lo}")
                nb = int(sum(1 for c in cr)); area = sum(.5 * np.linalg.norm(np.cross(V[f[1]] - V[f[0]], V[f[2]] - V[f[0]])) for f in Fc); wa = nb * s["dims"][1] * s["dims"][2]; emit(key + ":area", abs(area - wa) < 1e-3 * wa and Fc.max() < len(V), "area of the surface", f"{area} expected {wa}")
                with tempfile.TemporaryDirectory() as tmp:
                    p = os.path.join(tmp, "a.stl"); F.to_stl(p, resolution=2 * n + 1); M = meshio.read(p); T = M.points[M.cells[0].data]; a2 = .5 * np.linalg.norm(np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]), axis=1).sum(); emit(key + ":stl", abs(a2 - wa) < 1e-3 * wa, "surface written to a file", f"{a2} {wa}")
                b = (lo + np.where(np.arange(3) == ax, 0, .25) * (hi - lo), hi); V2, F2 = F.to_mesh(resolution=2 * n + 1, bounds=b); emit(key + ":bnd", bool(np.allclose(np.delete(V2.min(0), ax), np.delete(b[0], ax), atol=1e-5)) and max(min(abs(y - c) for c in cr) for y in V2[:, ax]) < 1e-4, "requested bounds", f"{V2.min(0)} {b[0]}")
            pad = float((hi - lo).max()) * .75; V, Fc = F.to_mesh(resolution=24, padding=pad); emit(key + ":pad", bool((V > lo - .95 * pad).all() and (V < hi + .95 * pad).all()), "with padding the surface closes", f"{V.min(0)} {V.max(0)}")
