"""C10 output.  Specs: spec/Output.tla (time-series writer: sessions, accepted and rejected frames, reopening) and
spec/Snapshot.tla (single files: cell type and field layout).  Behaviours are replayed on XDMFWriter / save_sol inside a
scratch directory and the files are read back independently (xml + h5py, meshio)."""
import itertools, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))


def main(ck):
    rng = ck.rng(ck.seed)
    inv = ["OneFramePerSuccess", "InOrder", "SameSignature"]; pr = ["RejectedLeavesNoTrace", "ReopenIsFresh", "ValidFirstFrameAccepted"]
    R = {}
    def deep(): ck.tlc("Output", dict(MaxOps=5, MaxSessions=2, Emit="FALSE"), spec="Spec", invariants=inv, properties=pr)
    def sim():
        n = 4000 if ck.thorough else 900
        r = ck.tlc("Output", dict(MaxOps=12, MaxSessions=3, Emit="TRUE"), spec="Spec", invariants=inv, args=["-simulate", f"num={n}", "-depth", 20, "-seed", ck.seed], workers=1)
        R["o"] = sorted({repr(x): x for x in r.records}.values(), key=repr)
    def short():
        r = ck.tlc("Output", dict(MaxOps=4, MaxSessions=2, Emit="TRUE"), spec="Spec", invariants=inv)
        R["s"] = sorted({repr(x): x for x in r.records}.values(), key=repr)
    def snap():
        r = ck.tlc("Snapshot", dict(Emit="TRUE"), spec="Spec", invariants=["AcceptedHaveComponents"])
        R["f"] = sorted(r.records, key=repr)
    ck.threads([deep, sim, short, snap], 4)
    o = R["o"]; rng.shuffle(o)
    # every short history in which some frame was rejected or the writer was reused, and a sample of long ones
    runs = o[: 3000 if ck.thorough else 400] + [x for x in R["s"]][:: 1 if ck.thorough else 2]
    f = R["f"]; rng.shuffle(f)
    byele = {}
    for x in f: byele.setdefault((x["ele"], x["rejected"]), []).append(x)
    snaps = [x for k, l in byele.items() for x in l[: 60 if ck.thorough else (14 if not k[1] else 4)]]
    ck.traces += len(runs) + len(snaps)
    ck.sample(runs[0]); ck.sample(snaps[0])
    ck.pool([("series", dict(runs=runs[i::3], seed=ck.seed + i)) for i in range(3)] + [("snapshots", dict(recs=snaps[i::3], seed=ck.seed + i)) for i in range(3)], nproc=6)
    ck.assumptions += ["fields are stored in single precision (documented)", "2-D vectors and tensors may be padded with zeros"]


NN = dict(TRI3=3, TRI6=6, QUAD4=4, QUAD8=8, QUAD9=9, TET4=4, TET10=10, HEX8=8, HEX20=20, HEX27=27)
DIM = dict(TRI3=2, TRI6=2, QUAD4=2, QUAD8=2, QUAD9=2, TET4=3, TET10=3, HEX8=3, HEX20=3, HEX27=3)
XT = dict(TRI3="Triangle", TRI6="Triangle_6", QUAD4="Quadrilateral", QUAD8="Quadrilateral_8", QUAD9="Quadrilateral_9", TET4="Tetrahedron", TET10="Tetrahedron_10", HEX8="Hexahedron", HEX20="Hexahedron_20", HEX27="Hexahedron_27")


def mk_mesh(ele, nr):
    """two cells with random points (geometry does not matter for output)"""
    import numpy as np, feax as fe
    base, _, d = ele.partition("@")
    if base.startswith("none"):
        n, d = int(base[4:]), int(d)
        m = fe.Mesh(nr.normal(size=(2 * n + 1, d)), np.stack([nr.permutation(2 * n + 1)[:n] for _ in range(2)]))
        return m, {3: "TRI3", 8: "HEX8"}.get(n, "QUAD4" if d == 2 else "TET4")
    n = NN[base]; d = int(d) if d else DIM[base]
    k = int(nr.integers(1, 4))
    return fe.Mesh(nr.normal(size=(2 * n + 1, d)), np.stack([nr.permutation(2 * n + 1)[:n] for _ in range(k)]), ele_type=base), base


def arr(sh, n, nr):
    import numpy as np
    tail = {"s": (), "s1": (1,), "v2": (2,), "v3": (3,), "v6": (6,), "t3": (3, 3), "t2": (2, 2), "short": (3,), "long": ()}[sh]
    n = n - 1 if sh == "short" else n + 1 if sh == "long" else n
    return nr.normal(size=(n,) + tail).astype(np.float32).astype(float)


def same(got, want):
    """equal values; trailing zero padding of components allowed"""
    import numpy as np
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape[0] != want.shape[0]: return False
    if want.ndim == 3 and want.shape[1:] == (2, 2) and got.reshape(len(got), -1).shape[1] == 9:
        w = np.zeros((len(want), 3, 3)); w[:, :2, :2] = want; want = w
    g, w = got.reshape(len(got), -1), want.reshape(len(want), -1)
    if g.shape[1] < w.shape[1] or (g.shape[1] > w.shape[1] and np.any(g[:, w.shape[1]:])): return False
    return np.array_equal(g[:, :w.shape[1]], w)


def snapshots(emit, a):
    import numpy as np, meshio, warnings, contextlib, io
    import feax as fe, jax.numpy as jnp
    nr = np.random.default_rng(a["seed"]); rng = random.Random(a["seed"])
    for i, x in enumerate(a["recs"]):
        mesh, base = mk_mesh(x["ele"], nr)
        pts, cells = np.array(mesh.points), np.array(mesh.cells)
        ext = rng.choice(["vtu", "vtu", "vtk"])
        key = f"snapshot:{x['ele']}:{x['pt']}:{x['cell']}:{ext}"
        nm = (lambda k, j: f"{k}_{j}") if ext == "vtk" or rng.random() < 0.5 else (lambda k, j: f"{k} field ({j})")
        P = [(nm("pt", j), arr(s, len(pts), nr)) for j, s in enumerate(x["pt"])]
        C = [(nm("cell", j), arr(s, len(cells), nr)) for j, s in enumerate(x["cell"])]
        fn = os.path.join(os.getcwd(), f"d{i}", "sub", f"out.{ext}")
        J = lambda L: [(n, jnp.array(v) if rng.random() < 0.5 else v) for n, v in L]
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                warnings.simplefilter("ignore")
                fe.utils.save_sol(mesh, fn, cell_infos=J(C) if C else None, point_infos=J(P) if P else None)
        except Exception as e:
            emit(key, x["rejected"], "a valid snapshot is written", repr(e)[:300])
            emit(key, not os.path.exists(fn), "a rejected snapshot leaves no file"); continue
        if x["rejected"]: emit(key, False, "malformed fields are rejected"); continue
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): r = meshio.read(fn)
        except BaseException as e:
            emit(key, False, "the file can be read back", repr(e)[:300]); continue
        emit(key, len(r.cells) == 1 and r.cells[0].type == x["type"] and np.array_equal(r.cells[0].data, cells), "cells and cell type", f"{[c.type for c in r.cells]} expected {x['type']}")
        emit(key, same(r.points, pts), "points")
        emit(key, set(r.point_data) == {n for n, _ in P} and set(r.cell_data) == {n for n, _ in C}, "field names", f"{set(r.point_data)} {set(r.cell_data)}")
        for n, v in P:
            if n in r.point_data: emit(key, same(r.point_data[n], v), "nodal values", f"{n} {np.shape(r.point_data[n])} {v.shape}")
        for n, v in C:
            if n in r.cell_data: emit(key, same(r.cell_data[n][0], v), "cell values", f"{n} {np.shape(r.cell_data[n][0])} {v.shape}")


def read_xdmf(fn):
    import xml.etree.ElementTree as ET, h5py, numpy as np
    root = ET.parse(fn).getroot(); out = []
    d = os.path.dirname(fn)
    def data(it):
        f, p = it.text.strip().split(":")
        with h5py.File(os.path.join(d, f), "r") as h: v = np.array(h[p])
        return v, tuple(int(q) for q in it.get("Dimensions").split())
    col = [g for g in root.iter("Grid") if g.get("GridType") == "Collection"][0]
    for g in col.findall("Grid"):
        t = g.find("Topology"); ge = g.find("Geometry")
        at = {}
        for q in g.findall("Attribute"): at.setdefault((q.get("Center"), q.get("Name")), []).append((q.get("AttributeType"), data(q.find("DataItem"))))
        out.append(dict(time=float(g.find("Time").get("Value")), topo=t.get("TopologyType"), ne=int(t.get("NumberOfElements")), cells=data(t.find("DataItem")), geo=ge.get("GeometryType"), pts=data(ge.find("DataItem")), at=at))
    return out


def series(emit, a):
    import numpy as np, jax.numpy as jnp
    import feax as fe
    nr = np.random.default_rng(a["seed"]); rng = random.Random(a["seed"])
    AT = {"s": "Scalar", "s1": "Scalar", "v2": "Vector", "v3": "Vector", "v6": "Tensor6", "t3": "Tensor", "t2": "Tensor"}
    eles = list(NN) + ["QUAD4@3", "TRI3@3", "none8@3"]
    for ri, x in enumerate(a["runs"]):
        ele = rng.choice(eles)
        mesh, base = mk_mesh(ele, nr)
        pts, cells = np.array(mesh.points), np.array(mesh.cells)
        fn = os.path.join(os.getcwd(), f"r{ri}", "h.xdmf")
        key = "series:" + ele + ":" + ",".join(o[0] for o in x["ops"])
        try: w = fe.utils.XDMFWriter(mesh, fn)
        except Exception as e:
            emit(key, False, "a writer exists for every element type", repr(e)[:200]); continue
        sp, sc = rng.choice(["s", "s1", "v2", "v3", "v6", "t3", "t2"]), rng.choice(["s", "v3", "t3", "s1"])
        T = rng.choice([lambda k: 0.1 * k + 1 / 3, lambda k: 1e-7 * k / 3, lambda k: 2.5, lambda k: -k / 7, lambda k: 1e6 + 1e-6 * k])
        stored, ok = {}, True
        def fields(k):
            p, c = [("den", arr(sp, len(pts), nr))], [("strain energy", arr(sc, len(cells), nr))]
            if k in ("B", "Bbad"): c = [("other", arr("s", len(cells), nr))]
            if k in ("E",): p, c = [], []
            if k == "Abad": c = [(c[0][0], arr("long", len(cells), nr))]
            if k == "Bbad": p = [(p[0][0], arr("short", len(pts), nr))]
            if k == "Ashape": p = [(p[0][0], nr.normal(size=(len(pts), 3, 4)))]
            if k == "Awide": c = [(c[0][0], nr.normal(size=(len(cells), 4)))]
            if k == "Adup": p = p + p
            return p, c
        for i, (o, res) in enumerate(x["ops"], 1):
            try:
                if o == "open":
                    r = w.__enter__(); got = "ok" if r is w else "enter must return the writer"
                elif o == "close": w.__exit__(None, None, None); got = "ok"
                elif o == "raise":
                    e = ValueError("user"); s = w.__exit__(ValueError, e, None); got = "swallowed" if s else "ok"
                else:
                    p, c = fields(o)
                    J = lambda L: [(n, jnp.array(v) if rng.random() < 0.3 else v) for n, v in L]
                    w.write_iteration(T(i), cell_infos=J(c) if c or rng.random() < 0.5 else None, point_infos=J(p) if p or rng.random() < 0.5 else None); got = "ok"; stored[i] = (p, c)
            except RuntimeError as e: got = "closed" if res == "closed" else "rejected"
            except Exception as e: got = "rejected"
            if got != res:
                emit(key, False, "frames are accepted and rejected as specified", f"op {i} {o}: {got}, expected {res}"); ok = False; break
        if not ok:
            try: w.__exit__(None, None, None)
            except Exception: pass
            continue
        emit(key, True, "frames are accepted and rejected as specified")
        try: fr = read_xdmf(fn)
        except Exception as e:
            emit(key, False, "the series can be read back", repr(e)[:300]); continue
        emit(key, len(fr) == len(x["file"]) and all(abs(f["time"] - T(q[0])) <= 1e-15 * abs(T(q[0])) for f, q in zip(fr, x["file"])), "one frame per successful write, in order, with its time", f"{[f['time'] for f in fr]} expected ops {x['file']}")
        if len(fr) != len(x["file"]): continue
        for f, q in zip(fr, x["file"]):
            p, c = stored[q[0]]
            emit(key, f["topo"] == XT[base] and f["ne"] == len(cells) and np.array_equal(f["cells"][0], cells) and f["cells"][1] == cells.shape, "cells and cell type", f"{f['topo']} {XT[base]}")
            emit(key, f["geo"] == ("XY" if pts.shape[1] == 2 else "XYZ") and np.array_equal(f["pts"][0], pts) and f["pts"][1] == pts.shape, "points")
            want = {("Node", n): (v, sp) for n, v in p}; want.update({("Cell", n): (v, sc if n != "other" else "s") for n, v in c})
            emit(key, set(f["at"]) == set(want) and all(len(v) == 1 for v in f["at"].values()), "field names and centering", f"{set(f['at'])}")
            for k2, (v, shn) in want.items():
                if k2 in f["at"]:
                    ty, (g, dims) = f["at"][k2][0]
                    emit(key, same(g, v) and ty == AT[shn] and int(np.prod(dims)) == g.size and dims[0] == len(v), "values, shape and attribute type", f"{k2} {ty} {dims} {g.shape}")
