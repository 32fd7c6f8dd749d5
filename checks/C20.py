"""C20 strut lattices, unit cells and directional stiffness.  Specs: Lattice (graphs grown edge by edge, exact point-in-strut decisions, adjacency <-> edge list), UnitCellGeom (bounds, corners,
edges, faces, selectors, periodic maps).  Graph histories are replayed through feax.flat.graph on points and meshes; cells through UnitCell subclasses at arbitrary origins and sizes."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
NPC = dict(TRI3=3, TRI6=6, QUAD4=4, QUAD9=9, TET4=4, TET10=10, HEX8=8)


def main(ck):
    import numpy as np
    import fx
    rng = ck.rng(ck.seed * 13 + 20); T = ck.thorough; L, U = [], []
    for k in range(70 if T else 14):
        d = rng.choice([2, 3]); n = rng.choice([1, 2, 3, 5, 9]); G = 8
        nodes = [[rng.randrange(-G, G + 1) for _ in range(d)] for _ in range(n)]
        if k % 3 == 0: nodes = [[rng.choice([-8, 0, 8]) for _ in range(d)] for _ in range(n)]
        cand = [[rng.randrange(n) + 1, rng.randrange(n) + 1] for _ in range(5)]
        pts = [[rng.randrange(-G - 3, G + 4) for _ in range(d)] for _ in range(24)] + nodes[:3]
        L.append(dict(dim=d, nodes=nodes, pts=pts, r2=rng.choice([0, 1, 3, 4, 6, 7, 11]), cand=cand, mesh={}))
    for e in NPC:                                   # density fields: the points are the cell centroids (and nodes), all scaled by the nodes per cell
        for r in range(2 if T else 1):
            dims = [rng.choice([1, 2])] * (2 if e[0] in "TQ" and e[1] in "RU" else 3); p, c = fx.ref_mesh(e, dims, rng); p = np.array(p); c = np.array(c); q = NPC[e]; sh = [rng.randrange(-3, 3) for _ in dims]; p = p + sh
            nodes = [[int(v) * q for v in p[rng.randrange(len(p))]] if rng.random() < .5 else [rng.randrange(-4, 6) * q for _ in dims] for _ in range(4)]
            cen = p[c].sum(1).tolist(); pts = cen[:40] + (p * q).tolist()[:40]
            L.append(dict(dim=len(dims), nodes=nodes, pts=pts, r2=rng.choice([q + 1, 2 * q + 1, 3 * q + 1]), cand=[[rng.randrange(4) + 1, rng.randrange(4) + 1] for _ in range(4)], mesh=dict(e=e, p=p.tolist(), c=c.tolist(), q=q, nc=len(cen[:40]))))
    import itertools
    for k in range(120 if T else 36):
        e = rng.choice(["QUAD4", "TRI3", "QUAD8", "TRI6"] if k % 2 else ["HEX8", "TET4", "TET10"]); d = 2 if k % 2 else 3
        p, c = fx.ref_mesh(e, [rng.choice([1, 2, 3]) if d == 2 else rng.choice([1, 2]) for _ in range(d)], rng); p = [[3 * int(v) + o for v, o in zip(x, [7, -11, 2])] for x in p]; lo, hi = [min(x[j] for x in p) for j in range(d)], [max(x[j] for x in p) for j in range(d)]
        if k % 3 == 0: p = [[v + (rng.choice([-1, 0, 1]) if lo[j] < v < hi[j] and all(lo[z] < x[z] < hi[z] for z in range(d)) else 0) for j, v in enumerate(x)] for x in p]     # distorted inside
        qs = []
        for _ in range(6):
            kind = rng.choice([1, 1, 2, 3]) if d == 3 else rng.choice([1, 3]); axes = rng.sample(range(1, d + 1), {1: 1, 2: 2, 3: d}[kind]);
            if kind == 3: axes = list(range(1, d + 1))
            qs.append(dict(k=kind, axes=axes, side=[rng.randrange(2) for _ in axes], xe=rng.random() < .4 and kind == 1, xc=rng.random() < .4 and kind < 3))
        A = np.eye(6, dtype=int)
        for _ in range(rng.randint(0, 5)): i, j = rng.sample(range(6), 2); A[i] += rng.choice([-1, 1]) * A[j]
        n, ln = rng.choice([((1, 0, 0), 1), ((0, 1, 0), 1), ((0, 0, 1), 1), ((3, 4, 0), 5), ((0, -3, 4), 5), ((4, 0, 3), 5), ((1, 2, 2), 3), ((2, -2, 1), 3), ((2, 3, 6), 7)])
        U.append(dict(d=d, pts=p, cells=[[int(v) + 1 for v in x] for x in c], q=qs, S6=(A.T @ A).tolist(), n=list(n), ln=ln, e=e))
    R = {}; INV = ["DirectionFree", "Lossless", "EndsAreIn"]
    def lat(): R["l"] = [(L[x["s"] - 1], x["steps"]) for x in ck.tlc("Lattice", dict(ScenFile='"s.json"', MaxEdges=4, Emit="TRUE"), files={"s.json": L}, spec="Spec", invariants=INV, args=["-simulate", f"num={400 if T else 60}", "-depth", "7", "-seed", ck.seed], workers=1).records]
    def latall(): ck.tlc("Lattice", dict(ScenFile='"s.json"', MaxEdges=3, Emit="FALSE"), files={"s.json": [dict(x, pts=x["pts"][:8]) for x in L]}, spec="Spec", invariants=INV, properties=["Monotone"], workers=3)
    def uc(): R["u"] = [(U[x["s"] - 1], x) for x in ck.tlc("UnitCellGeom", dict(ScenFile='"s.json"'), files={"s.json": U}, spec="Spec", invariants=["Classes", "Maps", "CornersFirstIsLower"], workers=2).records]
    ck.threads([lat, latall, uc], 3)
    seen = {}
    for a, st in R["l"]: seen[repr((a["nodes"], st[-1]["edges"]))] = (a, st)
    R["l"] = [seen[k] for k in sorted(seen)]; ck.traces += len(R["l"]) + len(R["u"]); ck.sample(R["l"][0][1][-1]["edges"]); ck.sample(R["u"][0][1]["corners"])
    ck.pool([("lattice", dict(items=R["l"][i::4], seed=ck.seed + i)) for i in range(4)] + [("cells", dict(items=R["u"][i::2], seed=ck.seed + i)) for i in range(2)], nproc=6)
    ck.assumptions += ["points exactly on a strut surface are judged only where the distance is exact in floating point (radius 0 at a node)"]


def lattice(emit, arg):
    import numpy as np, jax, jax.numpy as jnp
    import feax as fe
    from feax.flat import graph as g
    rng = random.Random(arg["seed"] * 7)
    for i, (s, steps) in enumerate(arg["items"]):
        h = rng.choice([1., .125, 3e-4, 1e3]) if not s["mesh"] else rng.choice([1., .1]); nodes = jnp.array(s["nodes"], float) * h; P = np.array(s["pts"], float) * h; r = s["r2"] / 2 * h; n = len(s["nodes"])
        for k, o in enumerate(steps):
            key = f"l:{arg['seed']}:{i}:{k}"; ed = np.array(o["edges"], int).reshape(-1, 2) - 1; order = list(range(len(ed))); rng.shuffle(order); ed2 = ed[order]; flip = [e[::-1] if rng.random() < .5 else e for e in ed2]; ed2 = np.array(flip, int).reshape(-1, 2)
            want = np.array(o["solid"]); nol = np.array(o["noloop"]); adj = np.array(o["adj"], float).reshape(n, n); back = np.array(o["back"], int).reshape(-1, 2) - 1
            f = g.create_lattice_function(nodes, jnp.array(ed2, int).reshape(-1, 2), r)
            j = want != 2; got = np.asarray(jax.vmap(f)(jnp.array(P))) if len(ed) or rng.random() < .5 else np.array([float(f(x)) for x in P])
            emit(key, np.array_equal(got[j], want[j]), "solid within the strut radius", f"dim {s['dim']} r={r} edges {ed2.tolist()}: {np.nonzero((got != want) & j)[0][:3].tolist()} points {P[(got != want) & j][:2].tolist()}")
            if s["r2"] == 0 and len(ed):
                ends = np.array([float(f(nodes[e])) for e in sorted(set(ed.ravel().tolist()))]); emit(key + ":0", np.all(ends == 1), "solid within the strut radius", "strut ends of a zero-radius lattice")
            a = np.asarray(g.edges2adjcentMat(jnp.array(ed2, int).reshape(-1, 2), num_nodes=n)); emit(key + ":adj", a.shape == (n, n) and np.array_equal(a != 0, adj != 0) and np.all(np.isin(a, [0, 1])), "graph conversions lose nothing", f"adjacency of {ed2.tolist()}")
            if len(ed): a2 = np.asarray(g.edges2adjcentMat(jnp.array(ed2))); m = ed.max() + 1; emit(key + ":adj2", a2.shape == (m, m) and np.array_equal(a2 != 0, adj[:m, :m] != 0), "graph conversions lose nothing", "inferred node count")
            scale = rng.choice([1., 1., -2., .3]); e3 = np.asarray(g.adjcentMat2edges(jnp.array(adj * scale))).reshape(-1, 2); emit(key + ":back", sorted(map(tuple, np.sort(e3, 1).tolist())) == sorted(map(tuple, back.tolist())), "graph conversions lose nothing", f"edges of the adjacency of {ed.tolist()}: {e3.tolist()}")
            fa = g.create_lattice_function_from_adjmat(nodes, jnp.array(adj), r); j = nol != 2; got = np.asarray(jax.vmap(fa)(jnp.array(P))) if rng.random() < .8 else np.array([float(jax.jit(fa)(x)) for x in P])
            emit(key + ":fadj", np.array_equal(got[j], nol[j]), "solid within the strut radius", f"from adjacency: {np.nonzero((got != nol) & j)[0][:3].tolist()}")
            M = s["mesh"]
            if M and k in (0, len(steps) - 1):
                class Pr(fe.Problem):
                    def get_energy_density(self): return lambda gr: jnp.sum(gr * gr)
                mesh = fe.Mesh(jnp.array(M["p"], float) * M["q"] * h, jnp.array(M["c"]), ele_type=M["e"]); pr = Pr(mesh, vec=rng.choice([1, s["dim"]]), dim=s["dim"], ele_type=M["e"]); ds, dv = rng.choice([(1., 1e-5), (.9, .2), (0.3, 1.)])
                kw = {} if (ds, dv) == (1., 1e-5) and rng.random() < .5 else dict(density_solid=ds, density_void=dv); nc = M["nc"]
                for nm, fn, sel, tot in (("cells", g.create_lattice_density_field, slice(0, nc), len(M["c"])), ("nodes", g.create_lattice_density_field_nodal, slice(nc, None), len(M["p"]))):
                    w = want[sel]; got = np.asarray(fn(pr, f, **kw)); jj = w != 2; emit(key + ":" + nm, got.shape == (tot,) and np.array_equal(got[:len(w)][jj], np.where(w == 1, ds, dv)[jj]), "density fields follow the lattice", f"{nm} {M['e']} solid={ds} void={dv}")
    for bad in (-1e-9, -1.):
        for fn in (lambda: g.universal_graph(jnp.zeros(2), jnp.zeros((2, 2)), jnp.array([[0, 1]]), bad), lambda: g.universal_graph_from_adjmat(jnp.zeros(2), jnp.zeros((2, 2)), jnp.eye(2), bad)):
            try: fn(); ok = False
            except ValueError: ok = True
            emit(f"neg:{bad}", ok, "negative radii are refused", str(bad))


def cells(emit, arg):
    import numpy as np, jax, jax.numpy as jnp
    import feax as fe
    from feax.flat.unitcell import UnitCell
    from feax.flat.utils import compute_directional_youngs_modulus as dym
    rng = random.Random(arg["seed"] * 7 + 3)
    class Cell(UnitCell):
        def mesh_build(self, p=None, c=None, e=None): return fe.Mesh(jnp.array(p), jnp.array(c), ele_type=e)
    for i, (s, o) in enumerate(arg["items"]):
        key = f"u:{arg['seed']}:{i}"; d = s["d"]; h = rng.choice([1., .01, 250., 1 / 3]); org = np.array([rng.choice([0., -5., 1e3, .7]) for _ in range(d)]); X = lambda v: np.array(v, float) * h + org; p = X(s["pts"]); c = np.array(s["cells"]) - 1
        kw = {} if h >= .3 and rng.random() < .5 else dict(atol=h * rng.choice([1e-3, .2])); u = Cell(p=p, c=c, e=s["e"], **kw); tol = 1e-9 * (np.abs(org).max() + 40 * h); hits = np.array(o["hits"])
        lb, ub = u.bounds; C = np.asarray(u.corners); emit(key + ":box", np.allclose(lb, X(o["lb"]), atol=tol) and np.allclose(ub, X(o["ub"]), atol=tol) and u.num_dims == d and C.shape == (2 ** d, d) and np.allclose(C, X(o["corners"]), atol=tol) , "bounds and corners", f"{lb} {ub}")
        emit(key + ":mask", np.array_equal(u.corner_mask, hits == d) and np.array_equal(u.edge_mask, hits == d - 1) and np.array_equal(u.face_mask, hits == d - 2), "corner, edge and face nodes", f"d={d} origin={org} size={h}")
        emit(key + ":cent", np.allclose(u.cell_centers, np.array(o["sums"], float) * h / c.shape[1] + org, atol=tol), "cell centres", s["e"])
        for k, q in enumerate(s["q"]):
            L, H = X(o["lb"]), X(o["ub"])
            def mk(side):
                ax = [a - 1 for a in q["axes"]]; val = [float((L, H)[z][a]) for a, z in zip(ax, side)]
                if q["k"] == 1: return u.face_function(ax[0], val[0], excluding_edge=q["xe"], excluding_corner=q["xc"])
                if q["k"] == 2: return u.edge_function(ax, val, excluding_corner=q["xc"])
                return u.corner_function(val)
            f1, f2 = mk(q["side"]), mk([1 - z for z in q["side"]]); m = np.asarray(jax.vmap(f1)(u.points)); emit(f"{key}:s{k}", np.array_equal(m, o["sel"][k]), "boundary selectors", f"{q}: {np.nonzero(m != np.array(o['sel'][k]))[0][:4].tolist()}")
            n1, n2 = o["n"][k]
            try: mp = u.mapping(f1, f2); boom = None
            except ValueError as e: boom = e
            if n1 != n2: emit(f"{key}:m{k}", boom is not None, "periodic maps", "differing point counts accepted"); continue
            if not n1: continue
            emit(f"{key}:m{k}", boom is None and np.allclose(jax.vmap(mp)(jnp.array(p)), p + np.array(o["shift"][k]) * h, atol=tol), "periodic maps", f"{q} {boom}")
        for ax in (-1, d):
            try: u.face_function(ax, 0.); ok = False
            except ValueError: ok = True
            emit(f"{key}:ax{ax}", ok, "invalid selectors are refused", f"axis {ax}")
        S6 = np.array(s["S6"], float); sc = rng.choice([1., 1e5]); n = np.array(s["n"]) / s["ln"]; want = sc * s["ln"] ** 4 / o["quad"]; got = float(dym(jnp.array(np.linalg.inv(S6) * sc), jnp.array(n))); emit(key + ":E", abs(got - want) <= 1e-8 * want, "directional stiffness", f"n={n}: {got} vs {want}")
