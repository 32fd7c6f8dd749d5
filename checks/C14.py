"""C14 solutions, fields and parameters.  Specs: Layout (where every degree of freedom lives, exact vector arithmetic), Params (histories of
replacements and tree maps), VarKinds (what a parameter array means: exact integral per cell).  All of it is replayed through the public API."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

W = dict(QUAD4=([6] * 4, 24, 4), QUAD8=([-2] * 4 + [8] * 4, 24, 4), TRI3=([4] * 3, 12, 1), TRI6=([0] * 3 + [4] * 3, 12, 3), HEX8=([3] * 8, 24, 8), TET4=([1] * 4, 4, 1))      # exact integrals of the shape functions, 1/24
MESHES = [("QUAD4", (2, 2)), ("QUAD4", (3, 2)), ("QUAD8", (2, 2)), ("QUAD8", (3, 1)), ("TRI3", (2, 3)), ("TRI3", (2, 2)), ("TRI6", (2, 1)), ("HEX8", (2, 1, 1)), ("HEX8", (2, 2, 1)), ("TET4", (1, 1, 1)), ("TET4", (2, 1, 1)), ("QUAD4", (1, 1)), ("QUAD8+QUAD4", (2, 2)), ("QUAD4+QUAD8", (3, 1)), ("QUAD8+QUAD4", (3, 2))]


def corner_mesh(pts, cells, rng):
    """The linear mesh of a quadratic one: same cells in the same order, corner nodes renumbered."""
    used = sorted({n for c in cells for n in c[:4]}); rng.shuffle(used); ix = {n: i for i, n in enumerate(used)}
    return [pts[n] for n in used], [[ix[n] for n in c[:4]] for c in cells]


def main(ck):
    import fx
    rng = ck.rng(ck.seed); T = ck.thorough; R = {}; G = []
    for e, dims in MESHES * (4 if T else 1):
        if T: dims = tuple(rng.randint(1, 3) for _ in dims)
        es = e.split("+"); big = "QUAD8" if len(es) == 2 else es[0]; pts, cells = fx.ref_mesh(big, dims, rng); ms = {big: (pts, cells)}
        if len(es) == 2: ms["QUAD4"] = corner_mesh(pts, cells, rng)
        G.append(dict(e=es, meshes=[ms[x] for x in es]))
    S = []
    for g, m in enumerate(G):
        nc, nq = len(m["meshes"][0][1]), W[m["e"][0]][2]; nns = [len(p) for p, _ in m["meshes"]]
        shapes = [[n] for n in {nc, 1, *nns}] + [[n, 2] for n in {nc, *nns}] + [[nc, nq], [nc, 1]] + [[nns[-1], 3]]
        bad = [n for n in (nc + 1, nc - 1, nns[0] + 1, nns[0] - 1, 2 * nc, 2) if n not in (nc, 1, 0, *nns)]
        shapes += [[n] for n in rng.sample(bad, min(len(bad), 2))] + [[rng.choice(bad), 2]] if bad else []
        for sh in shapes:
            const = rng.random() < .2; val = lambda: 3 if const else rng.randint(-9, 9)
            S.append(dict(id=len(S), g=g, fes=[dict(cells=c, nn=len(p), w12=W[x][0]) for x, (p, c) in zip(m["e"], m["meshes"])], vol12=W[m["e"][0]][1], nq=nq, shape=sh, data=[val() for _ in range(sh[0])] if len(sh) == 1 else [[val() for _ in range(sh[1])] for _ in range(sh[0])]))
    def lay(): R["lay"] = ck.tlc("Layout", dict(MaxVars=3, NodeCounts="{1, 2, 4, 6}" if T else "{1, 3, 4}", Vecs="{1, 2, 3}", Emit="TRUE"), spec="Spec", invariants=["LayoutBijective"]).records
    def par(): R["par"] = ck.tlc("Params", dict(MaxV=2, MaxS=2, MaxLen=3, Emit="TRUE"), spec="Spec", invariants=["OnlyTheSlot"]).records
    def deep(): ck.tlc("Params", dict(MaxV=3, MaxS=2, MaxLen=5 if T else 4, Emit="FALSE"), spec="Spec", invariants=["OnlyTheSlot"])
    def kind(): R["kind"] = {x["id"]: x for x in ck.tlc("VarKinds", dict(ScenFile='"s.json"', Emit="TRUE"), files={"s.json": S}, spec="Spec", invariants=["ConstantsExact"]).records}
    ck.threads([lay, par, deep, kind], 4)
    L = R["lay"]; P = R["par"]
    if not T:
        L.sort(key=lambda x: repr(x["lay"])); small = [x for x in L if len(x["lay"]) < 3]; L = small + rng.sample([x for x in L if len(x["lay"]) == 3], 120)
        P.sort(key=repr); P = rng.sample(P, min(len(P), 600))
    ck.traces += len(L) + len(P) + len(S); ck.sample(L[-1]); ck.sample(P[0]); ck.sample(dict(S[3], out=R["kind"][3]))
    jobs = [("layouts", dict(items=L[i::3])) for i in range(3)] + [("params", dict(items=P))]
    for g in range(len(G)): jobs.append(("kinds", dict(g=g, m=G[g], items=[(s, R["kind"][s["id"]]) for s in S if s["g"] == g], T=T)))
    ck.pool(jobs, nproc=8)
    ck.assumptions += ["on a mesh with as many cells as nodes an array of that length is cell data (documented precedence), also when it comes from a Solution"]


# ------------------------------------------------------------------------------------------------ workers
def layouts(emit, arg):
    import numpy as np, jax, jax.numpy as jnp, feax as fe
    for k, t in enumerate(arg["items"]):
        lay, ar = t["lay"], t["ar"]; key = f"lay{lay}"; x, y = (np.array(v, float) for v in ar["xy"]); n = t["total"]
        s, z = fe.Solution(jnp.asarray(x), lay), fe.Solution(jnp.asarray(y), lay); F = [np.array(f) for f in t["fields"]]
        eq = lambda tag, got, want, clause="arithmetic": emit(f"{key}:{tag}", bool(np.array_equal(np.asarray(got), np.asarray(want))), clause, dict(got=str(got)[:200], want=str(want)[:200]))
        emit(key + ":meta", s.num_fields == len(lay) and s.shape == (n,) and len(s) == n and s.dtype == jnp.float64, "layout")
        for i, f in enumerate(F):
            eq(f"field{i}", s.field(i), x[f], "field")
            for c in range(lay[i][1]):
                eq(f"nv{i}.{c}", s.node_var(c, i), x[f[:, c]], "node-var"); eq(f"nvn{i}.{c}", s.node_var(component=c - lay[i][1], var_index=i), x[f[:, c]], "node-var")
            if lay[i][1] > 1:
                for c in (lay[i][1], None, -lay[i][1] - 1):
                    try: v = s.node_var(c, i); emit(f"{key}:nvbad{i}.{c}", False, "node-var-refused", dict(lay=lay, component=c))
                    except (ValueError, IndexError): emit(f"{key}:nvbad{i}.{c}", True, "node-var-refused")
        for i in (len(lay), -1):
            try: s.field(i); emit(f"{key}:fbad{i}", i < 0 and bool(np.array_equal(s.field(i), x[F[i]])), "field-refused")
            except IndexError: emit(f"{key}:fbad{i}", True, "field-refused")
        a, b = np.asarray(x), jnp.asarray(y)
        for tag, got, w in [("add", s + z, "add"), ("addj", s + b, "add"), ("radd", b + s, "add"), ("raddn", y + s, "add"), ("sub", s - z, "sub"), ("subj", s - b, "sub"), ("mul", s * z, "mul"), ("mulj", s * b, "mul"), ("rmul", jnp.asarray(x) * z, "mul"), ("neg", -s, "neg"), ("sq", s ** 2, "sq"), ("dot", s @ z, "dot"), ("dotj", jnp.dot(s, z), "dot"), ("dotn", np.dot(s, z), "dot"), ("rdot", jnp.asarray(x) @ z, "dot"), ("add3", s + 3, "add3"), ("radd3", 3 + s, "add3"), ("rsub", 3 - s, "rsub"), ("rsubv", jnp.asarray(x) - z, "sub"), ("rsubn", x - z, "sub"), ("sum", sum([s, z], 0.0), "add")]: eq(tag, got, ar[w])
        eq("div", s / z, x / y); eq("rdiv", jnp.asarray(x) / z, x / y); eq("div2", s / 2, x / 2); eq("rdiv1", 1 / z, 1 / y); eq("matmul", s @ jnp.eye(n), x); eq("rmatmul", jnp.eye(n) @ s, x); W = np.arange(2.0 * n).reshape(2, n) % 5; eq("rmatmul2", jnp.asarray(W) @ s, W @ x); eq("rmatmuln", W @ s, W @ x); eq("rmatmuld", s.__rmatmul__(jnp.asarray(W)), W @ x); eq("matmul2", s @ jnp.asarray(W.T), W @ x)
        emit(key + ":dt", np.asarray(s, dtype=np.float32).dtype == np.float32 and np.asarray(s, dtype=np.int64).dtype == np.int64 and np.asarray(s).dtype == np.float64, "conversion")
        eq("np", np.asarray(s), x, "conversion"); eq("npf", np.asarray(s, dtype=np.float32), x, "conversion"); eq("jnp", jnp.asarray(s), x, "conversion"); eq("flat", s.flat, x, "conversion"); eq("iter", [float(v) for _, v in zip(range(n + 3), s)], x, "iteration"); eq("list", list(map(float, s)), x, "iteration")
        for q in (0, n - 1, -1): eq(f"ix{q}", s[q], x[q], "indexing")
        eq("slice", s[n // 2:], x[n // 2:], "indexing"); eq("mask", s[x > 0], x[x > 0], "indexing"); eq("gather", s[jnp.array([n - 1, 0])], x[[n - 1, 0]], "indexing")
        if k % 4: continue
        leaves, td = jax.tree_util.tree_flatten(s); s2 = jax.tree_util.tree_unflatten(td, leaves); m = jax.tree.map(lambda v: 2 * v, s)
        emit(key + ":tree", len(leaves) == 1 and isinstance(s2, fe.Solution) and s2.layout == s.layout and isinstance(m, fe.Solution), "tree"); eq("tree2", m.field(len(lay) - 1), 2 * x[F[-1]], "tree")
        B = jnp.stack([jnp.asarray(x), jnp.asarray(y), jnp.asarray(x)]); vb = jax.jit(jax.vmap(lambda v: fe.Solution(v, lay)))(B)
        for i, f in enumerate(F):
            eq(f"vf{i}", vb.field(i), np.asarray(B)[:, f], "batched field"); eq(f"vn{i}", vb.node_var(lay[i][1] - 1, i), np.asarray(B)[:, f[:, -1]], "batched field")
            eq(f"vv{i}", jax.vmap(lambda q: q.field(i).sum(1))(vb), np.asarray(B)[:, f].sum(2), "batched field")
            gr = jax.grad(lambda q: (q.field(i) ** 2).sum())(s); want = np.zeros(n); want[f.ravel()] = 2 * x[f.ravel()]; eq(f"g{i}", gr.dofs, want, "derivative of a field")
        B2 = jnp.stack([B, B + 1.0]); v2 = jax.vmap(jax.vmap(lambda v: fe.Solution(v, lay)))(B2)
        for i, f in enumerate(F): eq(f"v2f{i}", v2.field(i), np.asarray(B2)[:, :, f], "batched field"); eq(f"v2n{i}", v2.node_var(lay[i][1] - 1, i), np.asarray(B2)[:, :, f[:, -1]], "batched field")
        eq("lane", vb[1], y, "batched field"); emit(key + ":vlen", len(vb) == 3 and vb.shape == (3, n), "batched field")
        if len(lay) == 1:
            tp = fe.TracedParams(volume_vars=(jnp.ones(3), s)); eq("coef", tp.volume_vars[1], x[F[0]][:, 0] if lay[0][1] == 1 else x[F[0]], "solution as coefficient")
            eq("coefr", fe.TracedParams(volume_vars=(jnp.ones(3), jnp.ones(2))).replace_volume_var(0, s).volume_vars[0], x[F[0]][:, 0] if lay[0][1] == 1 else x[F[0]], "solution as coefficient")
            eq("coefb", fe.TracedParams(volume_vars=(vb,)).volume_vars[0], np.asarray(B)[:, F[0]][..., 0] if lay[0][1] == 1 else np.asarray(B)[:, F[0]], "solution as coefficient")
        else:
            try: fe.TracedParams(volume_vars=(s,)); emit(key + ":coef", False, "ambiguous coefficient accepted")
            except ValueError: emit(key + ":coef", True, "ambiguous coefficient accepted")


def params(emit, arg):
    import numpy as np, jax, jax.numpy as jnp, feax as fe
    for k, t in enumerate(arg["items"]):
        nv, ss = t["shape"]; mk = lambda v, n: jnp.full(n, float(v))
        size = lambda i, j: 1 + (3 * i + j) % 4
        tp = fe.TracedParams(volume_vars=tuple(mk(i + 1, size(0, i + 1)) for i in range(nv)), surface_vars=[tuple(mk(10 * (i + 1) + j + 1, size(i + 1, j + 1)) for j in range(n)) for i, n in enumerate(ss)])
        prev = []
        for step, r in enumerate(t["log"]):
            prev.append((tp, [np.asarray(v) for v in jax.tree_util.tree_leaves(tp)])); x, i, j = r["x"], r["i"], r["j"]
            if r["op"] == "vol": tp = tp.replace_volume_var(i - 1, mk(x, size(0, i)))
            elif r["op"] == "sur": tp = tp.replace_surface_var(i - 1, j - 1, mk(x, size(i, j)))
            else: tp = (jax.jit if k % 5 == 0 else lambda f: f)(lambda q: jax.tree.map(lambda v: 2 * v, q))(tp)
            key = f"p{k}.{step}"
            ok = len(tp.volume_vars) == nv and len(tp.surface_vars) == len(ss) and all(len(a) == n for a, n in zip(tp.surface_vars, ss))
            ok = ok and all(np.array_equal(v, np.full(size(0, q + 1), r["vol"][q])) for q, v in enumerate(tp.volume_vars)) and all(np.array_equal(v, np.full(size(p + 1, q + 1), r["sur"][p][q])) for p, st in enumerate(tp.surface_vars) for q, v in enumerate(st))
            emit(key, bool(ok), "replacement", dict(shape=t["shape"], step=r))
        for q, (o, was) in enumerate(prev): emit(f"p{k}:old{q}", all(np.array_equal(a, b) for a, b in zip(jax.tree_util.tree_leaves(o), was)), "replacement leaves the original unchanged")


def kinds(emit, arg):
    import numpy as np, jax, jax.numpy as jnp, feax as fe
    from feax.flat.solver import average_stress
    from feax.gene.responses import create_volume_fn
    from feax.assembler import create_energy_fn
    m = arg["m"]; es = m["e"]; meshes = [fe.Mesh(np.array(p, float) / 2, np.array(c), ele_type=e) for e, (p, c) in zip(es, m["meshes"])]; dim = 3 if es[0] in ("HEX8", "TET4") else 2; nc = len(m["meshes"][0][1])
    tot = lambda k: jnp.sum(jnp.atleast_1d(k)); g = arg["g"]
    if len(es) == 1:
        class Pb(fe.Problem):
            def get_tensor_map(self): return lambda ug, k, s: tot(k) * s * jnp.ones_like(ug) + 0 * ug
            def get_mass_map(self): return lambda u, x, k, s: tot(k) * s * (jnp.ones_like(u) + u)
        class Pe(fe.Problem):
            def get_energy_density(self): return lambda ug, k, s: tot(k) * s + 0 * jnp.sum(ug)
        prob = Pb(mesh=meshes[0], vec=dim, dim=dim, ele_type=es[0]); pe = Pe(mesh=meshes[0], vec=dim, dim=dim, ele_type=es[0]); nd = prob.num_total_dofs_all_vars; U0 = jnp.zeros(nd)
        def res(tp): return fe.get_res(prob, prob.unflatten_fn_sol_list(U0), tp)[0].sum(0)[0] if True else None
        def jac(tp):
            J = fe.get_jacobian(prob, prob.unflatten_fn_sol_list(U0), tp); return J.data.sum() / dim
        en = create_energy_fn(pe); vol = float(np.sum(np.asarray(prob.fes[0].JxW))); comp = [0, 0]
        def avg(tp): return average_stress(prob, U0, tp, dim)[0] * vol
        cons = dict(res=res, jac=jac, energy=lambda tp: en(U0, tp), average=avg)
    else:
        class Pb(fe.Problem):
            def get_weak_form(self):
                return lambda v, gr, x, k, s: ([tot(k) * s * (jnp.ones_like(v[0]) + v[0]), 2 * tot(k) * s * (jnp.ones_like(v[1]) + v[1])], [0 * gr[0], 0 * gr[1]])
        prob = Pb(mesh=meshes, vec=[2, 1], dim=dim, ele_type=es, gauss_order=[2, 2]); U0 = jnp.zeros(prob.num_total_dofs_all_vars)
        def res0(tp): return fe.get_res(prob, prob.unflatten_fn_sol_list(U0), tp)[0].sum(0)[1]
        def res1(tp): return fe.get_res(prob, prob.unflatten_fn_sol_list(U0), tp)[1].sum(0)[0] / 2
        def jac(tp): return fe.get_jacobian(prob, prob.unflatten_fn_sol_list(U0), tp).data.sum() / 4
        cons = dict(res0=res0, res1=res1, jac=jac)
    eye = jnp.eye(nc); one = jnp.ones(nc)
    assert all(f.num_quads == s["nq"] for f in prob.fes for s, _ in arg["items"][:1])
    for s, x in arg["items"]:
        k = jnp.asarray(np.array(s["data"], float)); key = f"k{g}:{'+'.join(es)}:{s['shape']}"; info = dict(shape=s["shape"], kind=x["kind"], cells=nc, nodes=[f["nn"] for f in s["fes"]])
        for name, f in cons.items():
            if x["kind"] == "refused":
                try: v = f(fe.TracedParams(volume_vars=(k, one))); emit(f"{key}:{name}:refused", False, "wrong shape accepted", dict(info, got=float(v)))
                except ValueError: emit(f"{key}:{name}:refused", True, "wrong shape accepted")
                continue
            want = np.array(x["cells"], float).sum(1) / 24
            try: got = np.asarray(jax.jit(jax.vmap(lambda e: f(fe.TracedParams(volume_vars=(k, e)))))(eye))
            except Exception as ex: emit(f"{key}:{name}", False, "parameter meaning", dict(info, error=repr(ex)[:300])); continue
            emit(f"{key}:{name}", bool(np.allclose(got, want, rtol=1e-12, atol=1e-12)), "parameter meaning", dict(info, consumer=name, got=got, want=want))
            # as the second parameter, and eagerly
            v = f(fe.TracedParams(volume_vars=(one, k))) if x["kind"] != "refused" and len(s["shape"]) == 1 else None
            if v is not None: emit(f"{key}:{name}:second", bool(np.allclose(v, want.sum(), rtol=1e-12, atol=1e-11)), "parameter meaning", dict(info, consumer=name, got=float(v), want=want.sum()))
        if len(es) == 1 and x["kind"] != "refused" and (len(s["shape"]) == 1 and s["shape"][0] != 1 or x["kind"] == "quad" and s["shape"][1] > 1 or nc == 1 == len(s["shape"])):
            v = create_volume_fn(prob)(k) * vol; emit(f"{key}:volume", bool(np.allclose(v, sum(c[0] for c in x["cells"]) / 24, rtol=1e-12, atol=1e-11)), "volume fraction", dict(info, got=float(v)))
        # a solution carrying the same nodal values is the same coefficient
        if x["kind"] == "node" and len(es) == 1 and arg["T"] | (g % 3 == 0):
            sol = fe.Solution(k.ravel(), ((s["shape"][0], 1 if len(s["shape"]) == 1 else s["shape"][1]),))
            v = cons["res"](fe.TracedParams(volume_vars=(sol, one))); emit(f"{key}:sol", bool(np.allclose(v, sum(map(sum, x["cells"])) / 24, atol=1e-11)), "solution as coefficient", info)
    # the constructors agree with the meshes they are for
    C = fe.TracedParams; n0 = [len(p) for p, _ in m["meshes"]]
    for v in range(len(es)):
        pv, cv = np.array(m["meshes"][v][0], float) / 2, np.array(m["meshes"][v][1]); lin = lambda p: 1 + p @ np.arange(1., 1 + dim); fn = lambda p: 1 + p @ jnp.arange(1., 1 + dim)
        emit(f"k{g}:mk:node{v}", np.array_equal(C.create_node_var(prob, 2.5, v), np.full(n0[v], 2.5)), "constructor"); emit(f"k{g}:mk:cell{v}", np.array_equal(C.create_cell_var(prob, 2.5, v), np.full(nc, 2.5)), "constructor")
        emit(f"k{g}:mk:quad{v}", np.array_equal(C.create_uniform_volume_var(prob, 2.5, v), np.full((nc, W[es[v]][2]), 2.5)), "constructor")
        emit(f"k{g}:mk:nodefn{v}", bool(np.allclose(C.create_node_var_from_fn(prob, fn, v), lin(pv), atol=1e-13)), "constructor"); emit(f"k{g}:mk:cellfn{v}", bool(np.allclose(C.create_cell_var_from_fn(prob, fn, v), lin(pv[cv].mean(1)), atol=1e-12)), "constructor")
        U = np.arange(prob.num_total_dofs_all_vars) + 1.0; o = sum(n * vv for n, vv in zip(n0[:v], prob.vec[:v])); vv = prob.vec[v]; nm = prob.fes[v].num_total_nodes
        for c in range(vv):
            w = U[o:o + nm * vv].reshape(nm, vv)[:, c]
            emit(f"k{g}:nvs{v}.{c}", np.array_equal(C.node_var_from_solution(prob, jnp.asarray(U), c, v), w) and np.array_equal(C.node_var_from_solution(prob, fe.Solution.from_problem(prob, jnp.asarray(U)), c, v), w) and np.array_equal(fe.Solution.from_problem(prob, jnp.asarray(U)).node_var(c, v), w), "node-var of a problem")
        if vv > 1:
            try: C.node_var_from_solution(prob, jnp.asarray(U), vv, v); emit(f"k{g}:nvsbad{v}", False, "node-var-refused")
            except (IndexError, ValueError): emit(f"k{g}:nvsbad{v}", True, "node-var-refused")
    qf = np.asarray(C.create_spatially_varying_volume_var(prob, fn)); J = np.asarray(prob.fes[0].JxW)
    pv, cv = np.array(m["meshes"][0][0], float) / 2, np.array(m["meshes"][0][1]); want = lin(pv[cv][:, :{"TRI6": 3, "QUAD8": 4}.get(es[0], 99)].mean(1)) * W[es[0]][1] / 24
    emit(f"k{g}:mk:quadfn", bool(qf.shape == J.shape and np.allclose((qf * J).sum(1), want, atol=1e-12)), "constructor", dict(es=es))
