"""C03 linear solves.  Specs: spec/SolvePipeline.tla (which solver configurations must give the constrained solution,
checked exhaustively on exact systems) and spec/LinSys.tla (exact solutions of small FE systems).  Every admissible
configuration class is replayed in the code, pairwise with the ways of calling it; larger meshes use the float reference
that each run validates against TLC's exact records."""
import itertools, random, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fx


def scenarios(rng, thorough):
    L = fx.lin_scenario; S = []
    def add(*a, **k): S.append(L(rng, f"s{len(S)}", *a, **k))
    add((2, 2), (1,), 4, spd=True)
    add((2, 2), (1,), 3, mass=True, spd=True, ga=1)
    add((2, 1), (2,), 4, spd=True)
    add((2, 1), (2,), 4, sym=True, ga=1)
    add((2, 1), (2,), 3, mass=True)
    add((2, 1), (1, 1), 4, ga=1)
    add((1, 2), (2, 1), 3, mass=True, ga=1)
    add((2, 2), (1, 1), 3, spd=True, mass=True)
    # beyond exact arithmetic: float reference
    small = len(S)
    add((9, 8), (1,), 60, spd=True, mass=True, drop={(4, 4)})
    add((7, 7), (2,), 90, spd=True, mass=True, ga=1)
    add((6, 5), (2, 1), 60, mass=True)
    add((17, 16), (1,), 200, spd=True, mass=True)      # more than one assembly batch (256 cells)
    if thorough:
        for i in range(10):
            add((rng.randint(2, 12), rng.randint(2, 12)), rng.choice([(1,), (2,), (1, 1), (2, 1)]), rng.randint(5, 60), mass=True, spd=i % 3 == 0, ga=i % 2)
    return S, small


def fill(s, rng, frac=0.6):
    """more free dofs for the larger scenarios: keep a random part of the constrained ones (at least one node's worth)"""
    n = len(s["pts"]) * sum(s["vecs"])
    keep = max(3, int(n * (1 - frac)))
    s["bc"] = sorted(rng.sample(s["bc"], min(keep, len(s["bc"]))))


def cover(rng, confs, thorough):
    """pairwise cover of (admissible configuration) x (call, structure, boundary override, convergence check, precond)"""
    extra = dict(call=["eager", "jit"], ts=["none", "arg", "built", "freed"], bcv=["default", "override"], check=[0, 1], precond=["none", "jacobi", "custom", "x0"], sol=[0, 1])
    out, seen = [], set()
    confs = confs[:]; rng.shuffle(confs)
    for c in confs:
        best = None
        for _ in range(6):
            d = dict(c, **{k: rng.choice(v) for k, v in extra.items()})
            ks = sorted(d); gain = sum(1 for a, b in itertools.combinations(ks, 2) if (a, d[a], b, d[b]) not in seen)
            if best is None or gain > best[0]: best = (gain, d)
        g, d = best
        if g == 0 and not thorough: continue
        ks = sorted(d); seen |= {(a, d[a], b, d[b]) for a, b in itertools.combinations(ks, 2)}
        out.append(d)
    return out


def main(ck):
    rng = ck.rng(ck.seed * 101 + 3)
    S, small = scenarios(rng, ck.thorough)
    for s in S[small:]: fill(s, rng)
    exact = {}
    confs = []
    def pipe():
        r = ck.tlc("SolvePipeline", dict(Emit="TRUE"), spec="Spec", invariants=["WellPosed", "Equilibrium", "PrescribedValues", "DefiniteWhereNeeded"], workers=4)
        seen = set()
        for x in r.records:
            if repr(x) not in seen: seen.add(repr(x)); confs.append(x)
        confs.sort(key=repr)
    def lin():
        r = ck.tlc("LinSys", dict(ScenFile='"s.json"', Emit="TRUE"), files={"s.json": S[:small]}, spec="Spec",
                   invariants=["WellPosed", "Equilibrium", "Prescribed", "Lagrange", "Symmetry"], workers=2)
        for x in r.records: exact[x["id"]] = x
    ck.threads([pipe, lin], 2)
    jobs = []
    for i, s in enumerate(S):
        cls = "spd" if s["spd"] else ("sym" if s["sym"] else "gen")
        cc = cover(rng, [c for c in confs if c["cls"] == cls], ck.thorough)
        if i >= small and not ck.thorough: cc = [c for c in cc if c["method"] not in ("spsolve",)][:9]
        elif not ck.thorough: cc = cc[:16]
        if i >= small and cls == "spd":
            cc += [dict(cls=cls, path=p, method="amg", view="FULL", elim=True, guess="lifted", to="amg", call="eager", ts="none", bcv="default", check=0, precond="none", sol=0) for p in ("linear", "newton")][:1 + i % 2]
        n = 1
        jobs += [("replay", dict(s=s, e=exact.get(s["id"]), confs=cc[j::n])) for j in range(n)]
        ck.traces += len(cc)
    jobs.sort(key=lambda j: -len(j[1]["s"]["pts"]))
    ck.sample(dict(scenario=S[0]["id"], configs=jobs[-1][1]["confs"][:2], exact_u=exact["s0"]["u"], D=exact["s0"]["D"]))
    ck.pool(jobs)
    ck.assumptions.append("triangular views are admissible only for symmetric operators with symmetric elimination and Cholesky or matrix-free methods; Newton is only claimed for guesses that satisfy the prescribed values or row-only elimination")


def replay(emit, a):
    import numpy as np, jax, jax.numpy as jnp, feax as fe
    from feax import NewtonOptions
    from vlib import close, err
    s = a["s"]
    R = fx.LinRef(s)
    if a["e"] is not None: fx.lin_validate(emit, s, a["e"])
    base = R.solve()
    rs = np.random.default_rng(7)
    g2 = R.bv + rs.integers(-2, 3, R.bv.shape)
    over = R.solve(g=g2)
    for ci, c in enumerate(a["confs"]):
        key = f"{s['id']}:" + ",".join(f"{k}={c[k]}" for k in ("path", "method", "view", "elim", "guess", "call", "ts", "bcv", "check", "precond"))
        prob = fx.lin_problem(s, c["view"]); tp = fx.lin_params(s, prob); bc = fx.lin_bc(s, prob)
        ts = None
        if c["ts"] != "none": ts = fe.TracedStructure.from_problem(prob, free_scratch=c["ts"] == "freed")
        kw = dict(check_convergence=bool(c["check"])) if c["method"] not in ("default",) else {}
        opts = fx.mk_options(c["method"], c["view"], precond=c["precond"], **kw)
        no = NewtonOptions(tol=1e-11, rel_tol=1e-13, max_iter=12)
        try:
            solver = fe.create_solver(prob, bc, opts, newton_options=no if c["path"] == "newton" else None, linear=c["path"] == "linear", traced_params=tp,
                                      symmetric_elimination=c["elim"], traced_structure=ts if c["ts"] in ("built", "freed") else None, return_solution=bool(c["sol"]))
            want = base["u"]; b2 = None; gv = R.bv
            if c["bcv"] == "override":
                want, gv = over["u"], g2
                b2 = bc.replace_vals(jnp.array(g2))
            g0 = np.zeros(R.n)
            if c["guess"] == "any": g0 = rs.integers(-3, 4, R.n) + 0.5
            if c["guess"] == "lifted": g0 = rs.integers(-1, 2, R.n).astype(float); g0[R.bd] = gv
            f = lambda tp, g, b, t: jnp.asarray(solver(tp, g, b, t) if b is not None or t is not None else solver(tp, g))
            if c["call"] == "jit": f = jax.jit(f)
            got = np.asarray(f(tp, jnp.array(g0), b2, ts))
            tol = 1e-7 if c["to"] in ("cg", "bicgstab", "gmres", "amg") or c["path"] == "newton" else 1e-9
            emit(key, close(got, want, tol), "solution of the constrained system", err(got, want))
            emit(key, close(got[R.bd], gv, 1e-10), "prescribed values", err(got[R.bd], gv))
            if ci % 4 == 0 and c["bcv"] == "default" and c["path"] == "linear":
                got2 = np.asarray(jnp.asarray(solver(tp)if ts is None else solver(tp, None, None, ts)))
                emit(key, close(got2, want, tol), "default guess gives the same field", err(got2, want))
        except Exception as e:
            import traceback
            emit(key, False, "no-exception", traceback.format_exc()[-1500:])
