"""C12 meshes.  Specs: spec/MeshTiling.tla (the tiling criterion on recorded meshes, exact integer geometry), spec/MeshDivide.tla
(what the generators and the import are asked for).  The real generators, refinement, import and face selection are run and
their output is given back to TLC, which decides."""
import itertools, json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

ALL = ["TRI3", "TRI6", "QUAD4", "QUAD8", "QUAD9", "TET4", "TET10", "HEX8", "HEX20"]


def main(ck):
    rng = ck.rng(ck.seed); T = ck.thorough
    R = {}
    def div():
        r = ck.tlc("MeshDivide", dict(Ls="{1, 2, 3, 7, 10}" if not T else "{1, 2, 3, 5, 6, 7, 9, 10}", Hs="{1, 2, 3, 20}", MaxBlocks=3 if not T else 4, Emit="TRUE"), spec="Spec", invariants=["NoBlockLost", "CoversSize"])
        R["d"] = sorted(r.records, key=repr)
    def crit():
        ck.tlc("MeshTiling", dict(ScenFile='"s.json"', Emit="FALSE"), files={"s.json": dict(meshes=[])}, spec="Spec", invariants=["CriterionSound"])
    ck.threads([div, crit], 2)
    box = [r for r in R["d"] if r["q"]["op"] == "box"]; imp = [r for r in R["d"] if r["q"]["op"] == "import"]
    box = [r for r in box if r["div"][0] * r["div"][1] * r["div"][2] <= 220]
    rng.shuffle(box); rng.shuffle(imp)
    multi = [r for r in imp if any(len(a["blocks"]) > 1 for a in r["allowed"])]
    imp = [r for r in imp if len(r["q"]["bs"]) == 1] + multi[: 90 if not T else 500] + imp[: 90 if not T else 500]
    must = [r for r in box if r["q"]["h"] == 1 and (r["q"]["lx"], r["q"]["ly"], r["q"]["lz"]) in ((3, 2, 1), (7, 3, 2), (1, 3, 7))]
    box = must + box[: 14 if not T else 120]
    jobs = [("boxes", dict(recs=box[k::3], seed=ck.seed + k, tag=f"b{k}")) for k in range(3)]
    jobs += [("rects", dict(seed=ck.seed, n=12 if not T else 80)), ("others", dict(seed=ck.seed, thorough=T)), ("selections", dict(seed=ck.seed, types=ALL[:5], n=4 if not T else 25)),
             ("selections", dict(seed=ck.seed, types=ALL[5:], n=2 if not T else 10)), ("imports", dict(recs=imp, seed=ck.seed))]
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix="c12_")
    try:
        for j in jobs: j[1]["dir"] = d
        ck.pool(jobs, nproc=8)
        def decide(f):
            ms = json.load(open(os.path.join(d, f)))
            r = ck.tlc("MeshTiling", dict(ScenFile='"s.json"', Emit="TRUE"), files={"s.json": dict(meshes=ms)}, spec="Spec", workers=1)
            assert len(r.records) == len(ms), (f, len(r.records), len(ms))
            for rec, m in zip(sorted(r.records, key=lambda x: [y["id"] for y in ms].index(x["id"])), ms):
                ck.traces += 1
                for c, ok in rec["v"].items(): ck.verdict(f"{rec['id']}:{c}", bool(ok), "tiling:" + c, dict(mesh=m["what"], n=len(m["cells"])))
                for k, sv in enumerate(rec["sel"]):
                    for c, ok in sv.items(): ck.verdict(f"{rec['id']}:sel{k}:{c}", bool(ok), "selection:" + c, dict(mesh=m["what"], pred={z: m["sel"][k][z] for z in ("axis", "val", "lo", "hi")}))
        fs = sorted(f for f in os.listdir(d) if f.endswith(".json"))
        ck.threads([lambda f=f: decide(f) for f in fs], 4)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ck.sample(box[0]); ck.sample(imp[0])
    ck.assumptions += ["unstructured meshes are judged on coordinates rounded to a lattice of 300 (boxes: exact on the boundary) units", "curved domains: boundary nodes within 2/300 of the surface, volume within 60..100 percent"]


# ------------------------------------------------------------------------------------------------ workers
def quant(x, lo, hi, lev, emit, key):
    """map coordinates to the integer lattice 0..lev per axis"""
    import numpy as np
    y = (x - lo) / (hi - lo) * lev
    r = np.round(y).astype(int)
    return r, float(np.abs(y - r).max())


def dump(arg, name, meshes):
    with open(os.path.join(arg["dir"], name + ".json"), "w") as f: json.dump(meshes, f)


def rec(id_, what, m, pts, **kw):
    import numpy as np
    d = dict(id=id_, what=what, ele=m.ele_type, pts=np.asarray(pts).tolist(), cells=np.asarray(m.cells).tolist(), kind="box", lo=[], hi=[], affine=0, ncells=0, measure=0, rad=0, height=0, sel=[])
    d.update(kw); return d


def boxes(emit, arg):
    import numpy as np
    from feax.mesh import box_mesh, refine_mesh
    rng = random.Random(arg["seed"]); out = []
    for k, r in enumerate(arg["recs"]):
        q = r["q"]; u = rng.choice([0.1, 0.1, 0.01, 1.0, 1 / 3, 1e-3]); n = np.array(r["div"])
        size = np.array([q["lx"], q["ly"], q["lz"]]) * u; org = np.array([rng.choice([0.0, -1.5, 2.0]) * u for _ in range(3)])
        key = f"box{arg['seed']}.{k}"
        arg_size = tuple(float(x) for x in size)
        if len(set(arg_size)) == 1 and rng.random() < .7: arg_size = arg_size[0]
        m = box_mesh(arg_size, origin=tuple(org), mesh_size=q["h"] * u)
        y = (np.asarray(m.points) - org) / size * n; p = np.round(y).astype(int)
        emit(key + ":lattice", bool(np.abs(y - p).max() < 1e-6) if len(p) else False, "points-on-grid", dict(q=q, u=u, cells=len(m.cells), expected=n.tolist()))
        out.append(rec(key, f"box_mesh{arg_size} h={q['h'] * u} origin={org.tolist()}", m, p, lo=[0] * 3, hi=n.tolist(), affine=1, ncells=int(n.prod()), measure=int(n.prod())))
        if k % 4 == 0 and n.prod() <= 12:
            f = refine_mesh(m, 1); y = (np.asarray(f.points) - org) / size * (2 * n); p = np.round(y).astype(int)
            emit(key + ":refined-lattice", bool(np.abs(y - p).max() < 1e-6), "points-on-grid", dict(q=q))
            out.append(rec(key + "r", f"refined {q}", f, p, lo=[0] * 3, hi=(2 * n).tolist(), affine=1, ncells=int(8 * n.prod()), measure=int(8 * n.prod())))
    dump(arg, "box" + arg["tag"], out)


def rects(emit, arg):
    import numpy as np
    from feax.mesh import rectangle_mesh, refine_mesh
    rng = random.Random(arg["seed"] + 5); out = []
    for k in range(arg["n"]):
        nx, ny = rng.choice([(1, 1), (1, 4), (5, 1), (3, 2), (2, 3), (6, 5), (rng.randint(1, 9), rng.randint(1, 9))])
        lx, ly = rng.choice([(1.0, 1.0), (0.3, 2.0), (7.0, 0.01)]); org = rng.choice([(0.0, 0.0), (-1.0, 3.0)])
        for e in ("QUAD4", "QUAD8", "QUAD9"):
            m = rectangle_mesh(nx, ny, lx, ly, org, ele_type=e)
            n = np.array([nx, ny]); key = f"rect{k}{e}"
            y = (np.asarray(m.points) - org) / [lx, ly] * (2 * n); p = np.round(y).astype(int)
            emit(key + ":lattice", bool(np.abs(y - p).max() < 1e-9), "points-on-grid", dict(n=[nx, ny], e=e))
            emit(key + ":type", m.ele_type == e, "element-type")
            out.append(rec(key, f"rectangle_mesh({nx},{ny},{lx},{ly},{org},{e})", m, p, lo=[0, 0], hi=(2 * n).tolist(), affine=1, ncells=nx * ny, measure=int(4 * nx * ny)))
        if nx * ny <= 12:
            for L in (0, 1, 2) + ((3,) if nx * ny <= 3 else ()):
                m = refine_mesh(rectangle_mesh(nx, ny, lx, ly, org), L); s = 2 ** L; key = f"rect{k}ref{L}"
                if L in (1, 2) and nx * ny <= 4:            # the same rectangle as a surface in space keeps its height
                    m0 = rectangle_mesh(nx, ny, lx, ly, org); h = lambda x: 2. * x[:, 0] - 3. * x[:, 1] + .5
                    m3 = refine_mesh(type(m0)(np.column_stack([np.asarray(m0.points), h(np.asarray(m0.points))]), m0.cells, ele_type="QUAD4"), L); P3 = np.asarray(m3.points)
                    emit(key + ":surface", P3.ndim == 2 and P3.shape[1] == 3 and P3.shape[0] == np.asarray(m.points).shape[0] and bool(np.allclose(P3[:, 2], h(P3), atol=1e-9)), "refined surface stays in space", P3.shape)
                    if P3.shape[1] == 3:
                        p3 = np.round((P3[:, :2] - org) / [lx, ly] * (s * n)).astype(int); out.append(rec(key + "s", f"refined surface level {L}", m3, p3, lo=[0, 0], hi=(s * n).tolist(), affine=1, ncells=nx * ny * s * s, measure=int(nx * ny * s * s)))
                y = (np.asarray(m.points) - org) / [lx, ly] * (s * n); p = np.round(y).astype(int)
                emit(key + ":lattice", bool(np.abs(y - p).max() < 1e-9), "points-on-grid")
                out.append(rec(key, f"refine_mesh level {L}", m, p, lo=[0, 0], hi=(s * n).tolist(), affine=1, ncells=nx * ny * s * s, measure=int(nx * ny * s * s)))
    dump(arg, "rect", out)


def others(emit, arg):
    import numpy as np
    import feax as fe
    from feax.mesh import box_mesh, sphere_mesh, cylinder_mesh, refine_mesh, check_mesh_TET4, rectangle_mesh
    rng = random.Random(arg["seed"] + 9); nr = np.random.default_rng(arg["seed"]); out = []
    LEV = 300
    for k, (sz, h, org) in enumerate([((1.0, 1.0, 1.0), 0.6, (0, 0, 0)), ((2.0, 1.0, 0.5), 0.6, (-3, 2, 5))] + ([((0.3, 0.2, 0.4), 0.1, (1, 1, 1))] if arg["thorough"] else [])):
        m = box_mesh(sz, origin=org, mesh_size=h, element_type="TET4")
        for lab, mm in [("", m)] + ([("r", refine_mesh(m, 1))] if len(m.cells) < 60 else []):
            p, _ = quant(np.asarray(mm.points), np.array(org), np.array(org) + sz, LEV, emit, "")
            out.append(rec(f"tet{k}{lab}", f"box_mesh TET4 {sz} h={h} {lab}", mm, p, lo=[0] * 3, hi=[LEV] * 3, measure=6 * LEV ** 3, ncells=8 * len(m.cells) if lab else 0))
            q = np.asarray(check_mesh_TET4(mm.points, mm.cells)); x = np.asarray(mm.points)[np.asarray(mm.cells)]
            ref = np.linalg.det(np.stack([x[:, 1] - x[:, 0], x[:, 2] - x[:, 0], x[:, 3] - x[:, 0]], 1))
            emit(f"tet{k}{lab}:quality", bool(np.allclose(q, ref, atol=1e-12 * np.abs(ref).max())), "check_mesh_TET4")
        flip = np.asarray(m.cells).copy(); flip[::2, :2] = flip[::2, 1::-1]
        q = np.asarray(check_mesh_TET4(m.points, flip))
        emit(f"tet{k}:inverted", bool((q[::2] < 0).all() and (q[1::2] > 0).all()), "check_mesh_TET4")
    # sphere
    for k, (rad, c, h) in enumerate([(1.0, (0, 0, 0), 0.6), (0.2, (3, -1, 2), 0.1)]):
        m = sphere_mesh(rad, center=c, mesh_size=h)
        p = np.round((np.asarray(m.points) - c) / rad * LEV).astype(int)
        out.append(rec(f"ball{k}", f"sphere_mesh({rad},{c},{h})", m, p, kind="ball", rad=LEV, measure=int(6 * 4 / 3 * np.pi * LEV ** 3)))
    # cylinders: points taken back to the canonical frame of the requested axis
    axes = [(0, 0, 1), (0, 0, -1), (1, 0, 0), (0, -2, 0), (1, 1, 1), (-1, 2, -3)]
    for k, ax in enumerate(axes):
        rad, H, c = [(1.0, 2.0, (2, -1, 3)), (0.5, 1.0, (1, 2, -3)), (1.0, 2.0, (0, 0, 0)), (0.5, 1.5, (0, 4, 0)), (1.0, 0.5, (2, -1, 3)), (0.5, 1.0, (0, 0, 0))][k]
        m = cylinder_mesh(rad, H, center=c, axis=ax, mesh_size=0.6 * rad)
        a = np.array(ax, float); a /= np.linalg.norm(a); b = np.cross(a, [0.3, 0.5, 0.7]); b /= np.linalg.norm(b); d = np.cross(a, b)
        y = (np.asarray(m.points) - c) @ np.stack([b, d, a], 1)
        p = np.round(y / rad * LEV).astype(int)
        out.append(rec(f"cyl{k}", f"cylinder_mesh(r={rad},h={H},center={c},axis={ax})", m, p, kind="cyl", rad=LEV, height=int(round(H / rad * LEV)), measure=int(6 * np.pi * LEV ** 2 * H / rad * LEV)))
    # 2-D triangles refined
    for k in range(3):
        nx, ny = rng.randint(1, 3), rng.randint(1, 3)
        m0 = rectangle_mesh(nx, ny, float(nx), float(ny)); c = np.asarray(m0.cells)
        m1 = fe.Mesh(m0.points, np.concatenate([c[:, [0, 1, 2]], c[:, [0, 2, 3]]]), ele_type="TRI3")
        f = refine_mesh(m1, 1); p = np.round(np.asarray(f.points) * 2).astype(int)
        emit(f"tri{k}:lattice", bool(np.abs(np.asarray(f.points) * 2 - p).max() < 1e-9), "points-on-grid")
        out.append(rec(f"tri{k}", f"refined TRI3 {nx}x{ny}", f, p, lo=[0, 0], hi=[2 * nx, 2 * ny], ncells=8 * nx * ny, measure=8 * nx * ny))
    dump(arg, "others", out)


def selections(emit, arg):
    """face selection on integer meshes with shuffled numbering, every element type"""
    import numpy as np, jax.numpy as jnp
    import feax as fe, fx
    rng = random.Random(arg["seed"] + 13); out = []
    for e in arg["types"]:
        dim = 2 if e in ALL[:5] else 3
        for k in range(arg["n"]):
            dims = [rng.randint(1, 3) for _ in range(dim)] if dim == 2 else rng.choice([(1, 1, 1), (2, 1, 1), (1, 2, 2)])
            pts, cells = fx.ref_mesh(e, dims, rng)        # coordinates doubled
            X = np.array(pts, float) / 2
            mesh = fe.Mesh(X, np.array(cells), ele_type=e)
            preds, fns = [], []
            def add(axis, val, lo, hi, nodes, two):
                preds.append(dict(axis=axis, val=val, lo=lo, hi=hi, nodes=nodes))
                lo_, hi_, nd = jnp.array(lo, float) / 2, jnp.array(hi, float) / 2, jnp.array(nodes or [-1])
                def base(x): 
                    ok = jnp.all(x >= lo_ - 1e-4) & jnp.all(x <= hi_ + 1e-4)
                    return ok & jnp.isclose(x[axis - 1], val / 2, atol=1e-4) if axis else ok
                XN = jnp.array(X)[nd]
                fns.append((lambda x, ind: base(x) & jnp.isin(ind, nd)) if two else (lambda x: base(x) & jnp.any(jnp.all(jnp.abs(XN - x) < 1e-4, axis=1))) if nodes else (lambda x: base(x)))
            full = ([-9] * dim, [99] * dim)
            for a in range(dim):
                add(a + 1, 0, *full, [], False); add(a + 1, 2 * dims[a], *full, [], False)
            a = rng.randrange(dim); lo, hi = [0] * dim, [2 * d for d in dims]
            b = (a + 1) % dim; lo2 = list(lo); lo2[b] = 2 * rng.randint(0, dims[b])
            add(a + 1, 2 * dims[a], lo2, hi, [], False)
            add(a + 1, 0, lo, hi, sorted(rng.sample(range(len(pts)), max(1, 2 * len(pts) // 3))), True)
            add(a + 1, 77, *full, [], False)
            side = [i for i, x in enumerate(pts) if x[a] == 0]; add(a + 1, 0, *full, sorted(set(range(len(pts))) - {rng.choice(side)}), False)      # a face is selected only if all of its nodes are
            add(0, 0, *full, sorted(rng.sample(range(len(pts)), max(1, 7 * len(pts) // 8))), False)
            nz = 2 * dim      # predicates that may select nothing are asked of the element only
            class P(fe.Problem):
                def get_tensor_map(self): return lambda g: g
                def get_surface_maps(self): return [(lambda u, x: u * 0) for _ in fns[:nz]]
            pr = P(mesh=mesh, vec=1, dim=dim, ele_type=e, location_fns=fns[:nz])
            fi = np.asarray(pr.fes[0].face_inds)
            for q, bi, fn in zip(preds, list(pr.boundary_inds_list) + list(pr.fes[0].get_boundary_conditions_inds(fns[nz:])), fns):
                bi = np.asarray(bi)
                q["picked"] = [[int(c), [int(n) for n in np.asarray(cells)[c][fi[f]]]] for c, f in bi]
                q["count"] = int(mesh.count_selected_faces(fn)) if fn.__code__.co_argcount == 1 else -1
            simp = e.startswith("T")
            fac = (2 if dim == 2 else 6) if simp else 1
            out.append(rec(f"sel{e}{k}", f"{e} {list(dims)} shuffled", mesh, pts, lo=[0] * dim, hi=[2 * d for d in dims], affine=1, measure=int(fac * np.prod(2 * np.array(dims))), sel=preds))
    dump(arg, "sel" + arg["types"][0], out)


NNB = dict(line=2, triangle=3, quad=4, triangle6=6, tetra=4, hexahedron=8, tetra10=10, vertex=1, wedge=6, quad8=8, quad9=9, hexahedron20=20, hexahedron27=27)


def imports(emit, arg):
    import numpy as np, meshio
    import feax as fe
    nr = np.random.default_rng(arg["seed"])
    FE = dict(triangle="TRI3", tetra="TET4", hexahedron="HEX8", quad="QUAD4", tetra10="TET10", quad8="QUAD8", hexahedron20="HEX20", hexahedron27="HEX27")
    for k, r in enumerate(arg["recs"]):
        q = r["q"]; key = f"imp{k}:{','.join(q['bs'])}:{q['want']}"
        n = 30; pts = nr.normal(size=(n, 3)); blocks = []
        for t in q["bs"]:
            m = int(nr.integers(1, 4)); blocks.append((t, np.stack([nr.permutation(n)[:NNB[t]] for _ in range(m)])))
        mm = meshio.Mesh(pts, blocks)
        try: got = fe.Mesh.from_gmsh(mm, element_type=FE[q["want"]] if q["want"] else None)
        except Exception as ex: got = ex
        al = {a["t"]: a["blocks"] for a in r["allowed"]}
        if not al:
            emit(key, isinstance(got, ValueError), "import-rejects", repr(got)[:200]); continue
        if isinstance(got, Exception):
            emit(key, False, "import-accepts", repr(got)[:300]); continue
        emit(key + ":type", got.ele_type in al, "import-type", got.ele_type)
        if got.ele_type in al:
            ref = np.concatenate([blocks[b - 1][1] for b in al[got.ele_type]])
            emit(key + ":cells", np.asarray(got.cells).shape == ref.shape and bool((np.asarray(got.cells) == ref).all()), "import-cells", dict(got=np.asarray(got.cells).shape, want=ref.shape))
            emit(key + ":points", np.asarray(got.points).shape == pts.shape and bool(np.allclose(np.asarray(got.points), pts)), "import-points")
