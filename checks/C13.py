"""C13 structured grids, sparse stores, narrow bands.  Specs: GridMaps (index arithmetic), BandMachine (store + superset histories),
BandLoop (moving-band optimization loop), BandElastic (exact elasticity on a band); every result is replayed through the public API."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))


def band_scen(rng, k):
    while True:
        dims = rng.choice([(2, 2, 2), (3, 2, 2), (4, 2, 1), (2, 1, 1), (3, 3, 2), (5, 2, 2), (1, 1, 1), (6, 6, 5)]); nc = dims[0] * dims[1] * dims[2]
        if nc > 100 and k % 9: continue
        break
    fix = rng.choice(["x0", "x1", "both", "z0"]); ij = lambda e: (e // (dims[1] * dims[2]), (e // dims[2]) % dims[1], e % dims[2])
    on = lambda e: dict(x0=ij(e)[0] == 0, x1=ij(e)[0] == dims[0] - 1, both=ij(e)[0] in (0, dims[0] - 1), z0=ij(e)[2] == 0)[fix]
    act = {rng.choice([e for e in range(nc) if on(e)])}; want = rng.choice([nc, max(1, nc // 2), max(1, (2 * nc) // 3)])
    while len(act) < want:
        fr = [e for e in range(nc) if e not in act and (on(e) or any(sum(abs(a - b) for a, b in zip(ij(e), ij(o))) == 1 for o in act))]
        act.add(rng.choice(fr))
    act = list(act); rng.shuffle(act)
    if rng.random() < .4: act.sort()
    ny1, nz1 = dims[1] + 1, dims[2] + 1; u = []
    for n in range((dims[0] + 1) * ny1 * nz1):
        p = (n // (ny1 * nz1), (n // nz1) % ny1, n % nz1)
        fx_ = dict(x0=p[0] == 0, x1=p[0] == dims[0], both=p[0] in (0, dims[0]), z0=p[2] == 0)[fix]
        u.append([0, 0, 0] if fx_ else [rng.randint(-3, 3) for _ in range(3)])
    lam, mu, den, nu = rng.choice([(2, 2, 5, .25), (0, 1, 2, 0.0), (6, 3, 8, 1 / 3)])
    return dict(id=k, dims=list(dims), h=[1, 1, 1] if rng.random() < .4 else [rng.randint(1, 2) for _ in range(3)], cells=act, r=[rng.randint(1, 2) for _ in act], pen=rng.choice([1, 2, 3]), e0=rng.choice([1, 3]),
                lam=lam, mu=mu, den=den, nu=nu, u=u, fix=fix, levels=rng.choice([1, 2, 2, 3]) if nc > 100 else rng.choice([1, 1, 2]), bucket=rng.choice([1, 7, 512]), sweeps=list(rng.choice([(2, 2), (2, 2), (1, 2), (2, 1), (1, 1), (3, 1)])))


def main(ck):
    import fx
    rng = ck.rng(ck.seed); T = ck.thorough; R = {}
    def grid():
        S = []
        for k in range(400 if T else 60):
            d = [rng.randint(1, 4) for _ in range(3)]; n = d[0] * d[1] * d[2]; lo = [rng.randint(-4, 4) for _ in range(3)]
            h = [rng.randint(1, 3) for _ in range(3)]
            S.append(dict(id=k, dims=d, cells=rng.sample(range(n), rng.randint(0, min(n, 5))), margin=rng.choice([0, 1, 2, 3]),
                          pts=[[rng.randint(-2, 2 * d[i] + 2) for i in range(3)] for _ in range(8)] + [[2 * d[0], 2 * d[1], 2 * d[2]], [0, 0, 0]],
                          fit=dict(lo=lo, hi=[a + rng.randint(1, 7) for a in lo], h=h, pad=rng.choice([0, 1, 2]), al=rng.choice([0, 0, 4]), own=rng.random() < .3, org=[a - rng.randint(0, 3) for a in lo])))
            S[-1].update(vals=[rng.randint(0, 4) for _ in S[-1]["cells"]], thr=rng.randint(0, 4), keep=rng.sample(range(n), rng.randint(0, min(n, 2))))
        r = ck.tlc("GridMaps", dict(MaxDim=4 if T else 3, ScenFile='"s.json"', Emit="TRUE"), files={"s.json": S}, spec="Spec", invariants=["Bijective", "DilateExtensive"])
        R["grid"] = [x for x in r.records if x["kind"] == "grid"]; R["set"] = [(S[x["id"]], x) for x in r.records if x["kind"] == "set"]
    def machine():
        M = []
        for e, dims, mg, gd in [("QUAD4", (4, 3), 1, 1), ("TRI3", (3, 2), 1, 1), ("HEX8", (3, 2, 2), 1, 0), ("TET4", (2, 1, 1), 1, 1), ("QUAD8", (3, 2), 0, 0), ("HEX20", (4, 1, 1), 2, 1), ("TRI6", (2, 2), 2, 1), ("QUAD4", (8, 1), 2, 1), ("QUAD4", (1, 1), 1, 1), ("QUAD4", (6, 1), 1, 2), ("QUAD4", (20, 1), 1, 1), ("HEX8", (12, 1, 1), 1, 1)]:
            pts, cells = fx.ref_mesh(e, dims, rng); n = len(cells); big = {}
            M.append(dict(e=e, pts=pts, cells=cells, margin=mg, guard=gd, keep=rng.sample(range(n), min(n, 2)), menus=[rng.sample(range(n), min(n, k)) for k in (1, 1, 2, 3)] + [rng.sample(range(n), n), []]))
        keepf = [dict(cells=m["cells"], menus=m["menus"], keep=m["keep"], margin=m["margin"], guard=m["guard"]) for m in M]
        r = ck.tlc("BandMachine", dict(ScenFile='"s.json"', MaxLen=14, Emit="TRUE"), files={"s.json": keepf}, spec="Spec", invariants=["LastWrite"], properties=["ActiveCovered"], args=["-simulate", f"num={2500 if T else 160}", "-depth", "16", "-seed", ck.seed], workers=1)
        R["mach"] = [(M[x["m"] - 1], x["log"]) for x in r.records]
    def machdeep():
        line = [dict(cells=[[i, i + 1] for i in range(4)], menus=[[0], [1, 2], [3]], keep=[2], margin=1, guard=1), dict(cells=[[0, 1], [1, 2], [2, 0]], menus=[[0], [1, 2]], keep=[0], margin=1, guard=0)]
        ck.tlc("BandMachine", dict(ScenFile='"s.json"', MaxLen=4 if T else 3, Emit="FALSE"), files={"s.json": line}, spec="Spec", invariants=["LastWrite"], properties=["ActiveCovered"])
    def loop():
        out = []
        for dx, dy, dz in ([(3, 2, 2), (4, 3, 1)] if T else [(3, 2, 2)]):
            nc = dx * dy * dz; sc = dict(menus=[sorted(rng.sample(range(nc), k)) for k in (4, 5, 7)] + [list(range(nc))], keep=[rng.randrange(nc)])
            r = ck.tlc("BandLoop", dict(Dx=dx, Dy=dy, Dz=dz, ScenFile='"s.json"', NIter=4, MinCells=3, Gus="{0, 1, 2}", JitAfters="{0, 2, 9}", Margins="{0, 1, 2}", Emit="TRUE"), files={"s.json": sc}, spec="Spec", invariants=["SolveOnCurrentBand", "JitAsScheduled"], properties=["BandHoldsMaterial"])
            out += [dict(x, dims=[dx, dy, dz], sc=sc) for x in r.records]
        out.sort(key=repr); rng.shuffle(out); R["loop"] = out[: 2000 if T else 120]
    def multires():
        S = []
        for k in range(200 if T else 40):
            p, q = rng.choice([(2, 1), (2, 1), (3, 1), (3, 2), (4, 1)]); S.append(dict(id=k, dims=[rng.randint(1, 9) for _ in range(3)], n=rng.choice([1, 2, 2, 3, 4]), p=p, q=q, floor=rng.choice([1, 2, 3, 8]), niter=rng.randint(1, 4), citer=rng.choice([-1, 1, 2, 3]), gus=rng.randint(0, 2)))
        S[0].update(n=1, niter=3, citer=1); S[1].update(dims=[4, 4, 4], floor=8, n=2, niter=4, citer=1); S[2].update(dims=[9, 6, 4], p=2, q=1, floor=4, n=2)
        r = ck.tlc("MultiRes", dict(ScenFile='"s.json"', Emit="TRUE"), files={"s.json": S}, spec="Spec", invariants=["LadderSound", "FullOnlyOnCoarsest", "EveryLevelFromCoarser", "LevelsInOrder", "FinestRunsAsAsked"], properties=["Ends"])
        by = {x["id"]: x for x in r.records}; R["mr"] = [(x, by[x["id"]]) for x in S]
    def elastic():
        S = [band_scen(rng, k) for k in range(120 if T else 24)]
        for sw in ([2, 2], [1, 2]):                              # nothing left free on the coarse level: the smoother alone preconditions
            while True:
                x = band_scen(rng, len(S))
                if x["dims"] == [2, 1, 1] and x["fix"] == "both" and len(x["cells"]) == 1: break
            S.append(dict(x, levels=2, sweeps=sw))
        n = 8; parts = [S[i::n] for i in range(n)]; res = {}
        def one(p): 
            for x in ck.tlc("BandElastic", dict(ScenFile='"s.json"', Emit="TRUE"), files={"s.json": p}, spec="Spec", invariants=["Sound"], workers=1).records: res[x["id"]] = x
        ck.threads([lambda p=p: one(p) for p in parts if p], 4)
        R["el"] = [(s, res[s["id"]]) for s in S]
    ck.threads([grid, machine, machdeep, loop, elastic, multires], 6)
    ck.traces += len(R["grid"]) + len(R["set"]) + len(R["mach"]) + len(R["loop"]) + len(R["el"]) + len(R["mr"])
    ck.sample(R["grid"][0]); ck.sample(R["mach"][0][1]); ck.sample(R["loop"][0]); ck.sample(R["el"][0][1])
    mach = R["mach"]
    ck.pool([("grids", dict(grids=R["grid"], sets=R["set"], seed=ck.seed))] + [("machines", dict(items=mach[i::2], seed=ck.seed + i)) for i in range(2)] + [("loops", dict(items=R["loop"])), ("ladders", dict(items=R["mr"], seed=ck.seed))] + [("elastic", dict(items=R["el"][i::4])) for i in range(4)], nproc=8)
    ck.assumptions += ["multigrid-preconditioned CG converges on the generated bands (its residual is what the comparison would expose otherwise)", "grids up to 6x6x5 cells represent larger ones; ids near 2^31 and 2^32 are covered for the sparse store only"]


# ------------------------------------------------------------------------------------------------ workers
def grids(emit, arg):
    import numpy as np, feax as fe
    from feax.spgrid import voxelize_mesh
    rng = random.Random(arg["seed"])
    for t in arg["grids"]:
        d = t["dims"]; key = f"grid{d}"; sp = [rng.choice([1.0, 0.5, 2.0]) for _ in range(3)]; og = [rng.choice([0.0, -3.0, 7.5]) for _ in range(3)]
        g = fe.StructuredGrid(d, spacing=sp, origin=og); ids = np.arange(len(t["cells"])); ijk = np.array([c["ijk"] for c in t["cells"]]); nd = np.array(t["nodes"])
        emit(key + ":counts", g.num_cells == len(ijk) and g.num_nodes == len(nd), "grid-counts")
        emit(key + ":ijk", np.array_equal(np.stack(g.cell_ijk(ids), 1), ijk) and np.array_equal(g.cell_id(*ijk.T), ids), "cell-index")
        emit(key + ":nid", np.array_equal(g.node_id(*nd.T), np.arange(len(nd))), "node-index")
        emit(key + ":corners", all(sorted(r) == c["nodes"] for r, c in zip(g.cell_to_nodes(ids).tolist(), t["cells"])), "cell-corners")
        emit(key + ":coords", np.array_equal(g.node_coords(np.arange(len(nd))), np.array(og) + nd * sp), "node-coordinates")
        emit(key + ":cent", np.allclose(g.cell_centroids(ids), np.array(og) + (ijk + .5) * sp, atol=0, rtol=1e-15), "cell-centroids")
        pick = rng.sample(range(len(ids)), rng.randint(1, len(ids))); cut = og[0] + sp[0] * d[0] / 2
        emit(key + ":where", np.array_equal(g.cells_where(lambda c: c[:, 0] < cut), ids[og[0] + (ijk[:, 0] + .5) * sp[0] < cut]), "cells-where")
        emit(key + ":nwhere", np.array_equal(np.sort(g.nodes_where(lambda i, j, k: (i == 0) & (k <= 1))), np.where((nd[:, 0] == 0) & (nd[:, 2] <= 1))[0]), "nodes-where")
        for lab, m, sel in (("all", g.to_mesh(), ids), ("sub", g.to_mesh(pick), np.array(pick)), ("band", fe.NarrowBand(g, pick).mesh, np.array(pick))):
            P = np.asarray(m.points); C = np.asarray(m.cells)
            used = sorted({n for c in sel for n in t["cells"][c]["nodes"]})
            ok = len(C) == len(sel) and len(P) == len(used) and np.allclose(P, g.node_coords(np.array(used))) and all(sorted(used[n] for n in C[k]) == t["cells"][c]["nodes"] for k, c in enumerate(sel))
            emit(f"{key}:mesh:{lab}", bool(ok), "grid-to-mesh", dict(dims=d, pick=pick))
            if ok:
                class Pb(fe.Problem):
                    def get_tensor_map(self): return lambda x: x
                J = np.asarray(Pb(mesh=m, vec=1, dim=3, ele_type="HEX8").fes[0].JxW)
                emit(f"{key}:vol:{lab}", bool((J > 0).all() and np.allclose(J.sum(1), np.prod(sp))), "grid-to-mesh")
    for s, x in arg["sets"]:
        d = s["dims"]; key = f"set{s['id']}"; sp = np.array([rng.choice([1.0, 0.5, 0.25]) for _ in range(3)]); og = np.array([rng.choice([0.0, -2.0, 5.0]) for _ in range(3)])
        g = fe.StructuredGrid(d, spacing=sp, origin=og)
        emit(key + ":dilate", np.array_equal(g.dilate_cells(s["cells"], s["margin"]), np.array(x["dil"], int)), "dilation", dict(s=s, want=x["dil"]))
        sd = fe.SparseDesign(np.array(s["cells"], int), np.array(s["vals"], float)); want = np.array(x["band"], int)
        emit(key + ":band", np.array_equal(sd.band_cells(g, float(s["thr"]), margin=s["margin"], keep_ids=np.array(s["keep"], int) if s["keep"] or s["id"] % 2 else None), want), "band of a stored design", dict(s=s, want=x["band"]))
        emit(key + ":active", sorted(sd.active_ids(float(s["thr"])).tolist()) == x["act"], "active cells of a stored design", dict(s=s, want=x["act"]))
        pts = og + np.array(s["pts"]) / 2 * sp
        emit(key + ":pc", g.point_cells(pts).tolist() == x["pc"], "point-cells", dict(dims=d, pts=s["pts"], got=g.point_cells(pts), want=x["pc"]))
        emit(key + ":vox", g.voxelize(pts).tolist() == x["vox"], "voxelize")
        f = s["fit"]; sc = rng.choice([1.0, 0.5, 0.25]); lo, hi = np.array(f["lo"]) * sc, np.array(f["hi"]) * sc
        P = np.concatenate([[lo, hi], lo + (hi - lo) * np.random.default_rng(s["id"]).uniform(size=(20, 3))])
        org = np.array(f["org"]) * sc if f["own"] else None
        hh = f["h"][0] * sc if len(set(f["h"])) == 1 else np.array(f["h"]) * sc
        g = fe.StructuredGrid.fit(P, h=hh, pad_cells=f["pad"], origin=org, align=f["al"] or None)
        w = x["fit"]; emit(key + ":fit-h", [g.nx, g.ny, g.nz] == [q["n"] for q in w] and np.allclose(g.origin, [q["org"] * sc for q in w]) and np.allclose(g.spacing, hh), "fit", dict(f=f, got=[g.nx, g.ny, g.nz], want=w))
        emit(key + ":fit-h-in", bool((g.point_cells(P) >= 0).all()), "fit-covers", dict(f=f))
        if not f["own"] and f["pad"]:
            ijk = np.stack(g.cell_ijk(g.point_cells(P)), 1); emit(key + ":fit-pad", bool((ijk >= f["pad"]).all() and (ijk <= np.array([g.nx, g.ny, g.nz]) - f["pad"]).all()), "fit-margin")
        dd = [rng.randint(1, 5) for _ in range(3)]; o2 = org if org is not None else None
        g = fe.StructuredGrid.fit(P, dims=dd, origin=o2, align=f["al"] or None)
        o = lo if o2 is None else o2
        emit(key + ":fit-dims", bool(np.allclose(g.spacing * dd + g.origin, hi) and np.allclose(g.origin, o) and (f["al"] or [g.nx, g.ny, g.nz] == dd)), "fit", dict(dims=dd, org=o, got=g.spacing))
        emit(key + ":fit-dims-in", bool((g.point_cells(P) >= 0).all()), "fit-covers", dict(dims=dd, org=o, lo=lo, hi=hi))
    # a structured source mesh marks exactly the cells it covers; ids beyond 31 bits in the sparse store
    for k in range(6):
        dd = [rng.randint(1, 3) for _ in range(3)]; g = fe.StructuredGrid(dd, spacing=(.5, .25, 1.0), origin=(1, -1, 0)); pick = rng.sample(range(g.num_cells), rng.randint(1, g.num_cells))
        inner = fe.Mesh(g.to_mesh(pick).points * 1.0, g.to_mesh(pick).cells, ele_type="HEX8")
        got = voxelize_mesh(g, inner); emit(f"voxm{k}", set(pick) <= set(got.tolist()) and set(got.tolist()) <= set(g.dilate_cells(pick, 1).tolist()), "voxelize-mesh", dict(pick=pick, got=got))
        ids = np.array(sorted(rng.sample(range(2 ** 31), 5)) + [2 ** 31 - 1]); v = np.arange(6) + 1.0; sd = fe.SparseDesign(ids, v)
        q = np.concatenate([ids, ids + 2 ** 32, ids + 2 ** 31, ids[:1] - 2 ** 32, [2 ** 40]]); w = np.concatenate([v, np.full(len(q) - 6, -7.0)])
        got = sd.gather(q, default=-7.0); emit(f"wide{k}", np.array_equal(got, w), "store-outside", dict(q=q, got=got))


def coincide(emit, rng, nr):
    """as many cells as nodes (triangles 2 x 3): a variable of that length belongs to the cells, both ways"""
    import numpy as np, jax.numpy as jnp, feax as fe
    idx = lambda i, j: 4 * i + j
    C = np.array([t for i in range(2) for j in range(3) for t in ((idx(i, j), idx(i + 1, j), idx(i + 1, j + 1)), (idx(i, j), idx(i + 1, j + 1), idx(i, j + 1)))])
    mesh = fe.Mesh(np.array([(i, j) for i in range(3) for j in range(4)], float), C, ele_type="TRI3"); assert len(C) == len(mesh.points) == 12
    for k in range(6):
        act = np.array(sorted(rng.sample(range(12), rng.randint(1, 11)))); band = np.zeros(12); band[act] = 1.0
        b = fe.NarrowBand.from_field(mesh, band, 0.5); v, w = nr.uniform(size=12), nr.uniform(size=(12, 3))
        tp = b.gather_params(fe.TracedParams(volume_vars=(jnp.array(v), jnp.array(w)))); a = np.asarray(b.active_cells)
        emit(f"coincide{k}", all(np.array_equal(np.asarray(x), y) for x, y in zip(tp.volume_vars, (v[a], w[a]))), "params-restricted", dict(act=act))
        band_maps(emit, f"coincide{k}", b, mesh, C, act.tolist(), nr, rng)


def machines(emit, arg):
    import numpy as np, feax as fe
    from feax.narrowband import SupersetBand
    rng = random.Random(arg["seed"]); nr = np.random.default_rng(arg["seed"])
    coincide(emit, rng, nr)
    for k, (M, log) in enumerate(arg["items"]):
        key = f"m{arg['seed']}.{k}"; mesh = fe.Mesh(np.array(M["pts"], float), np.array(M["cells"]), ele_type=M["e"]); nc, nn = len(M["cells"]), len(M["pts"])
        sd = fe.SparseDesign([], []); mgr = SupersetBand(mesh, margin=M["margin"], guard=M["guard"]); active = np.array([], int); C = np.array(M["cells"])
        for j, L in enumerate(log):
            kk = f"{key}:{j}:{L['op']}"; st = dict(map(tuple, L["store"])); dense = np.array([st.get(c, 0) for c in range(nc)], float)
            if L["op"] == "write":
                if rng.random() < .5: sd = sd.update(L["ids"], np.full(len(L["ids"]), float(L["v"])))
                else: sd = sd.updated(np.array(L["ids"], int), rng.choice([lambda v: v, lambda v: fe.TracedParams(volume_vars=(v,))])(np.full(len(L["ids"]), float(L["v"]))))
                emit(kk + ":gather", np.array_equal(sd.gather(np.arange(nc)), dense) and np.array_equal(sd.gather(np.arange(nc + 3), default=-1.0), [st.get(c, -1) for c in range(nc + 3)]), "store-last-write", dict(log=log[:j + 1]))
                emit(kk + ":ids", sd.ids.tolist() == sorted(st) and np.array_equal(np.asarray(sd.traced_params(np.arange(nc), default=2.0).volume_vars[0]), [st.get(c, 2) for c in range(nc)]), "store-last-write")
            elif L["op"].startswith("policy"):
                keep = M["keep"] if L["op"].endswith("keep") else None
                emit(kk + ":act", sorted(sd.active_ids(L["thr"]).tolist()) == sorted(c for c in st if st[c] > L["thr"]), "store-threshold")
                b = fe.NarrowBand.from_field(mesh, np.where(np.isin(np.arange(nc), list(st)), dense, -1), L["thr"], margin=L["mg"], keep_cells=keep)
                emit(kk + ":band", sorted(b.active_cells.tolist()) == L["active"] and len(set(b.active_cells.tolist())) == b.num_active_cells, "band-cells", dict(got=b.active_cells, want=L["active"], e=M["e"], mg=L["mg"]))
                nb = fe.NarrowBand.from_field(mesh, np.array([float(st.get(q, -1)) for q in range(nn)]), L["thr"], margin=L["mg"], keep_cells=keep, cell_field=False)
                emit(kk + ":nodeband", sorted(nb.active_cells.tolist()) == L["nb"] and len(set(nb.active_cells.tolist())) == nb.num_active_cells, "band of a nodal field", dict(got=nb.active_cells, want=L["nb"]))
                if L["active"]: band_maps(emit, kk, b, mesh, C, L["active"], nr, rng)
                active = np.array(L["active"], int); rng.random() < .5 and nr.shuffle(active)
            else:
                if L["op"] == "move": active = np.array(L["ids"], int)
                need = mgr.needs_reextract(active); emit(kk + ":needs", bool(need) == L["needs"], "superset-needs", dict(log=log[:j + 1], got=bool(need)))
                if L["needs"]:
                    if len(active) == 0: break                 # nothing to extract: an empty mesh is outside the model
                    b = mgr.reextract(active)
                    emit(kk + ":sup", sorted(b.active_cells.tolist()) == L["sup"] and len(set(b.active_cells.tolist())) == b.num_active_cells and mgr.band is b, "superset-cells", dict(got=b.active_cells, want=L["sup"], e=M["e"]))
                    band_maps(emit, kk, b, mesh, C, L["sup"], nr, rng)
                else:
                    emit(kk + ":held", sorted(mgr.band.active_cells.tolist()) == L["sup"], "superset-held")
                f = nr.integers(1, 9, nc) / 3; got = mgr.map_cells(f)
                emit(kk + ":map", np.array_equal(got, f[mgr.band.active_cells]) and np.array_equal(mgr.scatter_cells(got, fill=-1.0), np.where(np.isin(np.arange(nc), L["sup"]), f, -1.0)), "superset-maps")


def band_maps(emit, key, b, mesh, C, want, nr, rng):
    """the band's maps against the set of its cells"""
    import numpy as np, feax as fe
    nc, nn = len(C), len(mesh.points); act = np.asarray(b.active_cells); nodes = sorted({n for c in want for n in C[c]})
    ok = b.num_full_cells == nc and b.num_full_nodes == nn and sorted(b.node_map.tolist()) == nodes and len(b.mesh.cells) == len(act) and np.array_equal(np.asarray(b.node_map)[np.asarray(b.mesh.cells)], C[act]) and np.array_equal(np.asarray(b.mesh.points), np.asarray(mesh.points)[b.node_map]) and b.mesh.ele_type == mesh.ele_type
    emit(key + ":maps", bool(ok), "band-maps")
    if not ok: return
    f = nr.integers(1, 9, nc) / 3; g = b.gather_cells(f); inn = np.isin(np.arange(nc), want)
    emit(key + ":cells", np.array_equal(g, f[act]) and np.array_equal(b.scatter_cells(g, fill=-3.0), np.where(inn, f, -3.0)) and np.array_equal(b.gather_cells(b.scatter_cells(g)), g), "scatter-gather")
    f2 = nr.integers(1, 9, (nc, 3)) / 3; emit(key + ":cells3", np.array_equal(b.gather_cells(f2), f2[act]), "scatter-gather")
    vec = rng.choice([1, 2, 3]); u = nr.integers(1, 9, nn * vec) / 3; gb = b.gather_sol(u, vec); nin = np.isin(np.arange(nn), nodes)
    emit(key + ":sol", np.array_equal(gb.reshape(-1, vec), u.reshape(-1, vec)[b.node_map]) and np.array_equal(b.scatter_sol(gb, vec).reshape(-1, vec), np.where(nin[:, None], u.reshape(-1, vec), 0)) and np.array_equal(b.gather_sol(b.scatter_sol(gb, vec), vec), gb), "scatter-gather")
    import jax.numpy as jnp
    vc, vn, vq = nr.uniform(size=nc), nr.uniform(size=(nn, 2)), nr.uniform(size=(nc, 4))
    if nc != nn:
        tp = b.gather_params(fe.TracedParams(volume_vars=(jnp.array(vc), jnp.array(vn), jnp.array(vq))))
        ok = all(np.array_equal(np.asarray(a), w) for a, w in zip(tp.volume_vars, (vc[act], vn[b.node_map], vq[act])))
        emit(key + ":params", ok, "params-restricted")
        if b.num_active_cells != b.num_band_nodes:
            fp = b.scatter_params(tp, fill=-2.0)
            emit(key + ":pback", all(np.array_equal(np.asarray(a), np.where((m if a.ndim == 1 else m[:, None]), w, -2.0)) for a, w, m in zip(fp.volume_vars, (vc, vn, vq), (inn, nin, inn))), "params-restricted")
    for bad in (nc + nn + 1,):
        for fn in (b.gather_params, b.scatter_params):
            try: fn(fe.TracedParams(volume_vars=(jnp.zeros(bad),))); r = True
            except ValueError: r = False
            emit(f"{key}:bad{fn.__name__}", not r, "params-wrong-shape")
    try: b.gather_params(fe.TracedParams(volume_vars=(jnp.array(vc),), surface_vars=[(jnp.zeros(3),)])); r = True
    except ValueError: r = False
    emit(key + ":surf", not r, "params-wrong-shape")


def loops(emit, arg):
    """moving-band loop with a recording stand-in for the multigrid solver: its sensitivities make exactly the cells of the behaviour solid"""
    import numpy as np, feax as fe
    from feax.gene.narrowband import run_narrowband_oc
    for k, x in enumerate(arg["items"]):
        c, log, key = x["c"], x["log"], f"loop{k}"; g = fe.StructuredGrid(x["dims"]); nc = g.num_cells; ev = []; it = {"i": 0}
        class Cmg:
            def build(self, cells): ev.append(("build", np.array(cells))); return [dict(cells=np.array(cells))]
            def create_solver(self, levels, b, solver_options=None, jit=True, return_solution=True):
                assert np.array_equal(b, levels[0]["cells"]); mine = levels[0]["cells"].copy(); opts = solver_options
                return lambda rho: (ev.append(("solve", mine, bool(jit), np.array(rho), opts)), np.zeros(3))[1]
            def compliance_and_dc(self, levels, rho, u):
                cells = levels[0]["cells"]; nxt = log[it["i"]]["mat"]; it["i"] += 1; ev.append(("dc", cells.copy(), np.array(rho)))
                return float(it["i"]), np.where(np.isin(cells, nxt), -1.0 / np.asarray(rho) ** 2, 0.0)
        keep = np.zeros(nc, bool); keep[x["sc"]["keep"]] = True; xi = None; rho = np.full(nc, 0.25)
        if c["seed"]: xi = np.full(nc, 1e-3); xi[x["sc"]["menus"][c["seed"] - 1]] = 0.9; rho = xi.copy()
        x0 = None if xi is None else xi.copy(); flt = []
        def sfilter(cells, r, d): flt.append((np.array(cells), np.array(r), np.array(d))); return d
        try: out, hist = run_narrowband_oc(g, Cmg(), keep.reshape(x["dims"]), 0.25, lambda cm, lv: lv[0]["cells"], n_iter=len(log), grid_update_start=c["gus"], x_init=xi, move=1.0, margin=c["mg"], jit_after=None if c["ja"] == 9 else c["ja"], sensitivity_filter=sfilter, solver_options="opts", verbose=False)
        except Exception as ex: emit(key, False, "loop-completes", dict(c=c, err=repr(ex)[:300])); continue
        if xi is not None: emit(key + ":init", np.array_equal(xi, x0), "inputs-untouched")
        sol = [e for e in ev if e[0] == "solve"]; dcs = [e for e in ev if e[0] == "dc"]
        emit(key + ":n", len(sol) == len(log) and len(hist) == len(log), "loop-iterations"); 
        if len(sol) != len(log): continue
        for i, L in enumerate(log):
            a = np.array(L["active"]); kk = f"{key}:{i}"
            emit(kk + ":active", np.array_equal(np.sort(sol[i][1]), a) and np.array_equal(dcs[i][1], sol[i][1]) and np.array_equal(flt[i][0], sol[i][1]), "loop-band", dict(c=c, it=i, got=sol[i][1], want=a))
            emit(kk + ":jit", sol[i][2] == L["jit"] and sol[i][4] == "opts", "loop-jit", dict(c=c, it=i))
            ok = sol[i][3].shape == (len(sol[i][1]),) and np.allclose(sol[i][3], rho[sol[i][1]], atol=2e-3) and np.allclose(dcs[i][2], sol[i][3])
            emit(kk + ":rho", bool(ok), "loop-design", dict(c=c, it=i, got=sol[i][3]))
            rho = np.full(nc, 1e-3); n = len(L["mat"]); rho[L["mat"]] = (0.25 * nc - 1e-3 * (nc - n)) / n
            h = hist[i]; emit(kk + ":hist", h[0] == i and h[1] == i + 1 and abs(h[2] - len(a) / nc) < 1e-12 and abs(h[3] - rho.mean()) < 1e-3, "loop-history", h)
        emit(key + ":out", out.shape == (nc,) and np.allclose(out, rho, atol=2e-3), "loop-design")


def ladders(emit, arg):
    """coarse-to-fine loop with recording stand-ins: levels, iterations, full-grid phases, where each level starts from"""
    import numpy as np, feax as fe, itertools
    from scipy.ndimage import binary_dilation
    from feax.gene.narrowband import run_narrowband_multires, oc_update
    nr = np.random.default_rng(arg["seed"])
    for s, x in arg["items"]:
        key = f"ladder{s['id']}"; ev, built = [], []; thr = -1.0 if s["id"] % 2 else 0.05; mg = s["id"] % 3; ctr = nr.uniform(size=3); info = dict(s=s, ladder=x["ladder"])
        def build_fn(*d):
            d = tuple(int(v) for v in d); built.append(d); g = fe.StructuredGrid(d); me = len(built) - 1; kp = np.zeros(d, bool); kp.flat[nr.integers(kp.size)] = True
            cen = (np.stack(np.meshgrid(*[np.arange(n) for n in d], indexing="ij"), -1).reshape(-1, 3) + .5) / d; w = np.where(np.abs(cen - ctr).max(1) < .3, 1.0, 1e-6) * (1 + cen[:, 0])
            class Cmg:
                def build(self, cells): return [dict(cells=np.array(cells))]
                def create_solver(self, levels, b, solver_options=None, jit=True, return_solution=True):
                    cells = levels[0]["cells"].copy()
                    return lambda rho: (ev.append(dict(l=me, cells=cells, rho=np.array(rho), opts=solver_options, keep=kp)), np.zeros(3))[1]
                def compliance_and_dc(self, levels, rho, u): ev[-1]["dc"] = -w[levels[0]["cells"]]; return 1.0, ev[-1]["dc"]
            return dict(grid=g, cmg=Cmg(), keep=kp, load_fn=lambda c, lv: np.zeros(3))
        kw = {} if s["citer"] < 0 else dict(coarse_iter=s["citer"])
        try: out = run_narrowband_multires(build_fn, tuple(s["dims"]), 0.3, n_levels=s["n"], coarse_factor=s["p"] / s["q"] if s["q"] > 1 else s["p"], n_iter=s["niter"], grid_update_start=s["gus"], floor=s["floor"], verbose=False, move=0.4, xmin=1e-3, threshold=thr, margin=mg, solver_options="opts", sensitivity_filter=lambda c, r, d: d, **kw)
        except Exception as ex: emit(key, False, "ladder-completes", dict(info, err=repr(ex)[:300])); continue
        L = [tuple(d) for d in x["ladder"]]
        emit(key + ":levels", built == L and [tuple(d) for d in out["levels"]] == L and [tuple(h["dims"]) for h in out["history"]] == L, "ladder-levels", dict(info, got=built))
        emit(key + ":iters", [sum(e["l"] == l for e in ev) for l in range(len(L))] == x["iters"] and [len(h["history"]) for h in out["history"]] == x["iters"], "ladder-iterations", dict(info, want=x["iters"], got=[len(h["history"]) for h in out["history"]]))
        if built != L or [sum(e["l"] == l for e in ev) for l in range(len(L))] != x["iters"] or not min(x["iters"]): continue
        emit(key + ":opts", all(e["opts"] == "opts" for e in ev), "ladder-options")
        prev = None
        for l, d in enumerate(L):
            E = [e for e in ev if e["l"] == l]; nc = int(np.prod(d)); rho = None
            for i, e in enumerate(E):
                full = len(e["cells"]) == nc
                if i < x["full"][l]: emit(f"{key}:{l}:{i}:full", full, "ladder-exploration", info)
                if i == 0 and l == 0 and full: rho = np.full(nc, 0.3)
                if i == 0 and l and prev is not None:
                    lo, hi = hull(prev.reshape(L[l - 1]), d); ok = bool((e["rho"] >= np.clip(lo, 0, 1)[e["cells"]] - 1e-9).all() and (e["rho"] <= np.clip(hi, 0, 1)[e["cells"]] + 1e-9).all())
                    emit(f"{key}:{l}:seed", ok, "each level starts from the coarser design", info)
                    dil = lambda m: (binary_dilation(m.reshape(d), iterations=mg) if mg else m.reshape(d)) | e["keep"]
                    act = np.zeros(nc, bool); act[e["cells"]] = True
                    emit(f"{key}:{l}:band", bool((dil(lo > thr).reshape(-1) <= act).all() and (act <= dil(hi > thr).reshape(-1)).all()), "finer levels solve only their band", info)
                    if full: rho = e["rho"][np.argsort(e["cells"])]
                if rho is not None:
                    emit(f"{key}:{l}:{i}:rho", bool(np.allclose(e["rho"], rho[e["cells"]], atol=1e-12)), "ladder-design", info)
                    dc = np.zeros(nc); dc[e["cells"]] = e["dc"]; rho = oc_update(rho, dc, 0.3, move=0.4, xmin=1e-3)
            if rho is not None: emit(f"{key}:{l}:end", abs(out["history"][l]["history"][-1][3] - rho.mean()) < 1e-9, "ladder-design", info)
            prev = rho
        emit(key + ":out", np.asarray(out["x"]).shape == L[-1] and (prev is None or np.allclose(np.asarray(out["x"]).reshape(-1), prev)), "ladder-design", info)


def hull(c, d):
    """least and greatest coarse value in the coarse cells around each fine cell (whether positions are matched at the centres or end to end)"""
    import numpy as np, itertools
    R = []
    for s, t in zip(c.shape, d):
        i = np.arange(t); a = (i + .5) * s / t - .5; b = i * (s - 1) / max(t - 1, 1); R.append((np.clip(np.floor(np.minimum(a, b) + 1e-9), 0, s - 1).astype(int), np.clip(np.ceil(np.maximum(a, b) - 1e-9), 0, s - 1).astype(int)))
    lo, hi = np.empty(d), np.empty(d)
    for ix in itertools.product(*[range(t) for t in d]):
        v = c[tuple(slice(R[k][0][ix[k]], R[k][1][ix[k]] + 1) for k in range(3))]; lo[ix], hi[ix] = v.min(), v.max()
    return lo.reshape(-1), hi.reshape(-1)


def elastic(emit, arg):
    import numpy as np, jax, jax.numpy as jnp, feax as fe
    from feax.DCboundary import DirichletBCConfig, DirichletBCSpec
    for s, x in arg["items"]:
        key = f"el{s['id']}"; d = s["dims"]; h = np.array(s["h"], float); g = fe.StructuredGrid(d, spacing=h, origin=(1.0, -2.0, 0.5))
        unit = 72 * np.prod(h) * s["den"]; sc = 8 * 2 ** s["pen"]
        b = np.array(x["b"], float) / unit / sc; ce = np.array(x["ce"], float) / unit; E = np.array(x["e8"], float) / sc; nodes = np.array(x["nodes"])
        u = np.array(s["u"], float)[nodes]; act = np.array(s["cells"]); rho = np.array(s["r"]) / 2; info = dict(dims=d, h=s["h"], fix=s["fix"], levels=s["levels"], cells=s["cells"], pen=s["pen"], nu=s["nu"], sweeps=s["sweeps"])
        pred = dict(x0=lambda i, j, k, X, Y, Z: i == 0, x1=lambda i, j, k, X, Y, Z: i == X, both=lambda i, j, k, X, Y, Z: (i == 0) | (i == X), z0=lambda i, j, k, X, Y, Z: k == 0)[s["fix"]]
        ni = np.stack([nodes // ((d[1] + 1) * (d[2] + 1)), nodes // (d[2] + 1) % (d[1] + 1), nodes % (d[2] + 1)]); fixed = pred(*ni, *d); free = ~fixed
        bf = b * free[:, None]; dE = s["pen"] * rho ** (s["pen"] - 1) * (s["e0"] - 0.125); tol = 1e-5 * (1 + np.abs(u).max())
        # --- multigrid solver on the band
        cmg = fe.NarrowBandCMG(g, pred, n_levels=s["levels"], nu=s["nu"], Emin=0.125, E0=float(s["e0"]), penal=float(s["pen"]), bucket=s["bucket"], pre=s["sweeps"][0], post=s["sweeps"][1], cg_tol=1e-10, cg_maxit=400)
        lev = cmg.build(act); so = fe.KrylovSolverOptions(solver="cg", tol=1e-12, maxiter=600)
        f = np.zeros(3 * len(nodes)); 
        for k in range(3):
            for n in np.where(free)[0]: f += cmg.load_vector(lev, [nodes[n]], comp=k, value=bf[n, k])
        emit(key + ":load", np.allclose(f.reshape(-1, 3), bf), "band-load", info)
        for lab, jit in (("jit", True), ("eager", False)):
            if lab == "eager" and s["id"] % 4: continue
            sv = cmg.create_solver(lev, bf.reshape(-1), solver_options=so, jit=jit)
            sol = sv(jnp.array(rho)); got = np.asarray(sol.field(0))
            emit(f"{key}:cmg:{lab}", got.shape == u.shape and np.abs(got - u).max() < tol, "band-solve", dict(info, err=float(np.abs(got - u).max()) if got.shape == u.shape else got.shape))
            if lab == "jit":
                fl = cmg.create_solver(lev, bf.reshape(-1), solver_options=so, return_solution=False)
                tp = np.asarray(fl(fe.TracedParams(volume_vars=(jnp.array(rho),)))).reshape(-1, 3); emit(key + ":cmg:tp", np.abs(tp - u).max() < tol, "band-solve", info)
                gr = np.asarray(jax.grad(lambda r: jnp.dot(jnp.array(bf.reshape(-1)), fl(r)))(jnp.array(rho))); w = -dE * ce
                emit(key + ":cmg:grad", np.allclose(gr, w, rtol=1e-5, atol=1e-5 * (1 + np.abs(w).max())), "band-gradient", dict(info, got=gr, want=w))
        c_, dc = cmg.compliance_and_dc(lev, rho, u.reshape(-1))
        emit(key + ":comp", abs(c_ - float((E * ce).sum())) < 1e-9 * (1 + abs(c_)) and np.allclose(dc, -dE * ce, atol=1e-9 * (1 + np.abs(ce).max())), "band-compliance", dict(info, got=c_))
        # --- the same operator through a band mesh and the library's general assembly
        if len(act) > 40 and s["id"] % 2: continue
        band = fe.NarrowBand(g, act); emit(key + ":nodes", np.array_equal(np.sort(band.node_map), nodes), "band-maps")
        pos = np.searchsorted(nodes, band.node_map); lam, mu = s["lam"] / s["den"], s["mu"] / s["den"]
        class El(fe.Problem):
            def get_tensor_map(self):
                def m(gr, E):
                    e = .5 * (gr + gr.T); return E * (lam * jnp.trace(e) * jnp.eye(3) + 2 * mu * e)
                return m
        pb = El(mesh=band.mesh, vec=3, dim=3, ele_type="HEX8"); ax, val = dict(x0=(0, 1.0), x1=(0, 1.0 + d[0] * h[0]), z0=(2, .5), both=(0, None))[s["fix"]]
        loc = (lambda p: jnp.isclose(p[ax], val, atol=1e-8)) if val is not None else (lambda p: jnp.isclose(p[0], 1.0, atol=1e-8) | jnp.isclose(p[0], 1.0 + d[0] * h[0], atol=1e-8))
        bc = DirichletBCConfig([DirichletBCSpec(loc, "all", 0.0)]).create_bc(pb)
        P = jnp.array(bf[pos].reshape(-1)); tp = fe.TracedParams(volume_vars=(jnp.array(E),), surface_vars=[])
        nfix = len(np.unique(np.asarray(bc.bc_rows))); emit(key + ":bc", nfix == 3 * int(fixed.sum()), "band-bc", dict(info, got=nfix))
        sv = fe.create_solver(pb, bc, solver_options=fe.KrylovSolverOptions(solver="cg", tol=1e-12, maxiter=2000), traced_params=tp, linear=False, extra_residual_fn=lambda q: -P)
        got = np.asarray(sv(tp, jnp.zeros(pb.num_total_dofs_all_vars))).reshape(-1, 3)
        emit(key + ":fem", np.abs(got - u[pos]).max() < tol, "band-solve", dict(info, err=float(np.abs(got - u[pos]).max())))
        full = band.scatter_sol(got.reshape(-1), 3).reshape(-1, 3); w = np.zeros_like(full); w[nodes] = u
        emit(key + ":full", np.abs(full - w).max() < tol, "band-solve", info)

