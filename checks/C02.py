"""C02 Dirichlet resolution and enforcement.  Spec: spec/Dirichlet.tla.  TLC enumerates every list of up to MaxLen
specifications of a catalogue (and larger random lists), resolves them and computes the enforced residual and tangent;
each behaviour is replayed through create_bc / apply_boundary_to_* / the assembled routes."""
import random, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fx import box_cells

CAT = [dict(loc=dict(kind="plane", ax=0, v=0), comp=-1, val=[1, 2, 0], var=-1),
       dict(loc=dict(kind="half", ax=0, v=1), comp=0, val=[-3, 0, 4], var=-1),
       dict(loc=dict(kind="plane", ax=1, v=1), comp=1, val=[5, -1, 0], var=-1),
       dict(loc=dict(kind="point", p=[1, 1]), comp=-1, val=[7, 0, 0], var=1),
       dict(loc=dict(kind="idx", m=2, r=1), comp=0, val=[-2, 1, 1], var=0),
       dict(loc=dict(kind="all"), comp=-1, val=[0, 0, 0], var=0),
       dict(loc=dict(kind="none"), comp=-1, val=[9, 0, 0], var=-1),
       dict(loc=dict(kind="plane", ax=0, v=2), comp=0, val=[4, 0, -2], var=1)]



def rspec(rng, dim, nv, hi):
    kind = rng.choice(["plane", "plane", "half", "half", "idx", "point", "all", "none"])
    loc = dict(kind=kind)
    if kind in ("plane", "half"):
        loc.update(ax=rng.randrange(dim), v=rng.randint(0, hi))
    if kind == "idx":
        m = rng.randint(2, 5); loc.update(m=m, r=rng.randrange(m))
    if kind == "point":
        loc.update(p=[rng.randint(0, 2) for _ in range(dim)])
    return dict(loc=loc, comp=rng.choice([-1, 0, 0, 1, 2]), val=[rng.randint(-5, 5) for _ in range(dim + 1)],
                var=rng.choice([-1, -1] + list(range(nv))))


def model(rng, dims, vecs, lists, cat=(), quad8=None, scale=1):
    dim = len(dims)
    pts, cells = box_cells(dims, rng)
    V = []; cn = [[] for _ in cells]
    for i, vec in enumerate(vecs):
        if quad8 == i:       # QUAD8 mesh on the same cells, doubled coordinates
            p2 = [[2 * a for a in p] for p in pts]; ix = {tuple(p): n for n, p in enumerate(p2)}; c2 = []
            for c in cells:
                row = list(c)
                for a in range(4):
                    m = tuple(pts[c[a]][d] + pts[c[(a + 1) % 4]][d] for d in range(2))
                    if m not in ix:
                        ix[m] = len(p2); p2.append(list(m))
                    row.append(ix[m])
                c2.append(row)
            V.append(dict(pts=p2, vec=vec, ele="QUAD8", cells=c2))
        else:
            V.append(dict(pts=[[scale * a for a in p] for p in pts], vec=vec, ele="QUAD4" if dim == 2 else "HEX8", cells=cells))
    for v in V[1:]:                                             # every variable numbers its nodes in its own way
        o = list(range(len(v["pts"]))); rng.shuffle(o); new = {g: k for k, g in enumerate(o)}
        v["pts"] = [v["pts"][g] for g in o]; v["cells"] = [[new[g] for g in c] for c in v["cells"]]
    for c in range(len(cells)):
        cn[c] = [v["cells"][c] for v in V]
    hi = scale * max(dims)
    return dict(vars=V, cellnodes=cn, cat=list(cat), lists=[[rspec(rng, dim, len(vecs), hi) for _ in range(n)] for n in lists], dim=dim)


def main(ck):
    rng = ck.rng(ck.seed * 31 + 5)
    T = ck.thorough
    A = model(rng, (2, 1), (2, 1), [], cat=CAT)
    L = [model(rng, (3, 2), (1,), [0, 2, 3, 5]), model(rng, (2, 2), (2,), [3, 4, 6]), model(rng, (2, 1, 2), (3,), [2, 4]),
         model(rng, (2, 2), (2, 1), [3, 6], quad8=0, scale=2), model(rng, (2, 1), (1, 2), [3, 6], quad8=1, scale=2), model(rng, (2, 2), (1, 2, 1), [4, 8]),
         model(rng, (12, 9), (2,), [5, 9]), model(rng, (1, 2, 2), (1, 3), [5])]
    if T:
        L += [model(rng, (rng.randint(1, 4), rng.randint(1, 4)), rng.choice([(1,), (2,), (1, 1), (2, 1), (1, 2, 1)]), [rng.randint(1, 7) for _ in range(4)]) for _ in range(12)]
        L += [model(rng, (30, 30), (2,), [8, 12])]
    jobs = []
    def exh():
        r = ck.tlc("Dirichlet", dict(ScenFile='"s.json"', MaxLen=3 if not T else 4, Emit="TRUE"), files={"s.json": dict(models=[A])}, spec="Spec",
                   invariants=["ExactlyTheSelected", "FirstWins"], properties=["NeverRevised", "Terminates"], workers=4)
        rec = list({repr(x['specs']): x for x in r.records}.values())
        if T: rec = rec[:2500]
        n = 4 if not T else 8
        ck.sample(dict(specs=rec[-1]["specs"], rows=rec[-1]["rows"], vals=rec[-1]["vals"]))
        ck.traces += len(rec)
        ck.pool([("replay", dict(m=A, recs=rec[i::n], cheap=True)) for i in range(n)], nproc=n)
    def one(m):
        r = ck.tlc("Dirichlet", dict(ScenFile='"s.json"', MaxLen=0, Emit="TRUE"), files={"s.json": dict(models=[m])}, spec="Spec",
                   invariants=["ExactlyTheSelected", "FirstWins"], workers=2)
        ck.traces += len(r.records)
        ck.pool([("replay", dict(m=m, recs=r.records, cheap=False))], nproc=1)
    ck.threads([exh] + [(one, m) for m in L], 6)


def build(m, view="FULL", weak=True):
    import numpy as np, jax.numpy as jnp, feax as fe
    from feax.mesh import Mesh
    V = m["vars"]; dim = m["dim"]
    ms = [Mesh(np.array(v["pts"], float), np.array(v["cells"]), ele_type=v["ele"]) for v in V]
    class P(fe.Problem):
        if len(V) == 1:
            def get_tensor_map(self): return lambda g: 3.0 * g + (jnp.sum(g) if g.shape[0] > 1 else 0) * jnp.ones_like(g)
            def get_mass_map(self): return lambda u, x: u * (1 + x[0]) + 2.0 + u[0] * jnp.arange(1., 1 + u.shape[0])
        else:
            def get_weak_form(self):
                def wf(vals, grads, x):
                    s = sum(jnp.sum(u) for u in vals)
                    return [u * 2.0 + s for u in vals], [g * (i + 2.0) for i, g in enumerate(grads)]
                return wf
    if len(V) == 1:
        return P(ms[0], vec=V[0]["vec"], dim=dim, ele_type=V[0]["ele"], matrix_view=view)
    g = 2 if any(v["ele"] == "QUAD8" for v in V) else None
    return P(ms, vec=[v["vec"] for v in V], dim=dim, ele_type=[v["ele"] for v in V], gauss_order=[g] * len(V), matrix_view=view)


def mkspec(sp, i, dim):
    import jax.numpy as jnp, feax as fe
    loc = sp["loc"]; k = loc["kind"]
    f = {"plane": lambda x: jnp.isclose(x[loc["ax"]], loc["v"], atol=1e-5), "half": lambda x: x[loc["ax"]] > loc["v"] - 0.5,
         "point": lambda x: jnp.all(jnp.abs(x - jnp.array(loc.get("p", [0] * dim), float)) < 1e-5), "idx": lambda x, n: n % loc["m"] == loc["r"],
         "all": lambda x: x[0] > -1e9, "none": lambda x: x[0] > 1e9}[k]
    c = {-1: "all"}.get(sp["comp"], sp["comp"])
    if i % 2 and c in (0, 1, 2): c = "xyz"[c]
    val = sp["val"]
    v = float(val[0]) if not any(val[1:]) else (lambda x: val[0] + x @ jnp.array(val[1:], float))
    return fe.DirichletBCSpec(f, c, v, None if sp["var"] == -1 else sp["var"])


def replay(emit, a):
    import numpy as np, jax, jax.numpy as jnp, feax as fe
    from feax import assembler as asm
    from feax.DCboundary import DirichletBC, apply_boundary_to_res, apply_boundary_to_J_csr, dirichlet_bc_config
    from vlib import close, err
    m = a["m"]; dim = m["dim"]
    probs = {}
    def prob_of(view):
        if view not in probs: probs[view] = build(m, view)
        return probs[view]
    for ri, r in enumerate(a["recs"]):
        prob = prob_of("FULL")
        n = prob.num_total_dofs_all_vars
        key = f"m{len(m['vars'])}d{dim}n{n}:" + "/".join(f"{s['loc']}{s['comp']}{s['val']}{s['var']}" for s in r["specs"])
        key = key.replace(" ", "").replace("'", "")[:300]
        specs = [mkspec(s, i, dim) for i, s in enumerate(r["specs"])]
        if ri % 3 == 0: bc = fe.DirichletBCConfig(specs).create_bc(prob)
        elif ri % 3 == 1: bc = DirichletBC.from_specs(prob, specs)
        else: bc = dirichlet_bc_config(*specs).create_bc(prob)
        rows, vals = np.array(r["rows"], int), np.array(r["vals"], float)
        got = np.asarray(bc.bc_rows)
        emit(key, got.shape == rows.shape and np.array_equal(got, rows), "constrained set is the selected dofs, sorted, once", f"{got.tolist()} vs {rows.tolist()}"[:600])
        emit(key, close(bc.bc_vals, vals, 1e-12), "value of the first specification", f"{np.asarray(bc.bc_vals).tolist()} vs {vals.tolist()}"[:600])
        mask = np.zeros(n, bool); mask[rows] = True
        emit(key, np.array_equal(np.asarray(bc.bc_mask), mask) and bc.total_dofs == n, "mask marks the same dofs", "")
        if not r["res"]: continue
        I = np.arange(n)
        resin, solin = ((I * 13) % 23) - 11., ((I * 7) % 19) - 9.
        bcj = jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(bc)))
        for sc in range(3):
            w = np.array(r["res"][sc], float)
            emit(key, close(apply_boundary_to_res(bc, jnp.array(resin), jnp.array(solin), sc), w, 1e-12), "enforced residual", f"scale {sc}")
            emit(key, close(jax.jit(apply_boundary_to_res)(bcj, jnp.array(resin), jnp.array(solin), sc), w, 1e-12), "enforced residual, compiled", f"scale {sc}")
        new = np.array(r["new"], float)
        b2 = bc.replace_vals(jnp.array(new))
        w = resin.copy(); w[rows] = solin[rows] - new
        emit(key, np.array_equal(np.asarray(b2.bc_rows), rows) and np.array_equal(np.asarray(b2.bc_mask), mask) and b2.total_dofs == n and
             close(apply_boundary_to_res(b2, jnp.array(resin), jnp.array(solin)), w, 1e-12) and close(bc.bc_vals, vals, 1e-12), "replacing values keeps the constrained set", "")
        for view in (["FULL", "UPPER", "LOWER"] if not a["cheap"] else ["FULL"]):
            prob = prob_of(view)
            ip, ix = np.asarray(prob.csr_indptr), np.asarray(prob.csr_indices)
            row = np.repeat(np.arange(n), np.diff(ip))
            ts = fe.TracedStructure.from_problem(prob, free_scratch=False)
            for q in ("0", "1"):
                W = {(i, j): x for i, j, x in r["jac"][q] if view == "FULL" or (i <= j if view == "UPPER" else i >= j)}
                data = jnp.array(((row * 31 + ix * 17) % 89) + 1.0)
                for nm, out in (("problem", apply_boundary_to_J_csr(bc, prob, data, q == "1")), ("structure", jax.jit(lambda b, d, t: apply_boundary_to_J_csr(b, prob, d, q == "1", t))(bc, data, ts))):
                    G = dict(zip(zip(row.tolist(), ix.tolist()), np.asarray(out).tolist()))
                    bad = [(k, G.get(k), W.get(k)) for k in set(G) | set(W) if abs(G.get(k, 1e9) - W.get(k, 1e9)) > 1e-12]
                    emit(key, not bad, "enforced tangent", f"{view} sym={q} via {nm}: {bad[:4]}")
                # the assembled routes: raw tangent and residual with the same enforcement
                sym = q == "1"
                u = jnp.array(solin)
                from feax import TracedParams
                tp = TracedParams(volume_vars=(), surface_vars=[])
                nobc = fe.DirichletBCConfig([]).create_bc(prob)
                res0, J0 = asm.create_res_J_bc_csr_parametric(prob, symmetric=sym)(u, tp, nobc, ts)
                D0 = np.asarray(J0.todense()); R0 = np.asarray(res0)
                D = D0.copy()
                if sym: D[:, mask] = 0
                D[mask] = 0; D[rows, rows] = 1
                R = R0.copy(); R[rows] = solin[rows] - vals
                res1, J1 = jax.jit(asm.create_res_J_bc_csr_parametric(prob, symmetric=sym))(u, tp, bc, ts)
                emit(key, close(J1.todense(), D, 1e-10) and close(res1, R, 1e-10), "assembled and enforced system", f"{view} sym={sym} " + err(J1.todense(), D) + err(res1, R))
                J2 = asm.create_J_bc_csr_parametric(prob, symmetric=sym)(u, tp, bc, ts)
                emit(key, close(J2.todense(), D, 1e-10), "assembled and enforced tangent", f"{view} sym={sym}")
                emit(key, close(fe.create_J_bc_csr_function(prob, bc, symmetric=sym)(u, tp).todense(), D, 1e-10), "tangent function enforces", f"{view} sym={sym}")
                emit(key, close(asm.create_res_bc_parametric(prob)(u, tp, bc, ts), R, 1e-10) and close(fe.create_res_bc_function(prob, bc)(u, tp), R, 1e-10), "residual functions enforce", "")
                if view == "FULL":
                    r3, mv = asm.create_matfree_res_J_parametric(prob, symmetric=sym)(u, tp, bc, ts)
                    v = jnp.array(((I * 11) % 17) - 8.0)
                    emit(key, close(r3, R, 1e-10) and close(mv(v), D @ np.asarray(v), 1e-9), "matrix-free enforces", f"sym={sym} " + err(mv(v), D @ np.asarray(v)))
