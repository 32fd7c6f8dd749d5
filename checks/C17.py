"""C17 multiplier dynamics and optimality-criteria updates.  Specs: Multipliers (exact integer MDMM dynamics of arbitrary constraint sets), OCStep (histories of
exact optimality-criteria updates with reachable and unreachable volume targets).  Histories are replayed through mdmm.eq/ineq/combine/prepare_update and oc_update."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
U = 480


def main(ck):
    rng = ck.rng(ck.seed * 5 + 17); T = ck.thorough; R = {}
    M = []
    for k in range(1200 if T else 160):
        nx = rng.randint(1, 3); x = [rng.randint(-2, 2) for _ in range(nx)]; cons = []
        for _ in range(rng.randint(1, 4)):
            ineq = rng.random() < .5; rows = []
            for _ in range(rng.choice([1, 1, 2, 4])):
                a = [rng.randint(-1, 1) for _ in range(nx)]; q = rng.choice([0, 0, 1]); v = sum(p * y for p, y in zip(a, x)) + q * x[0] ** 2
                b = rng.choice([0, 1, 4, -1, -3]) - v if ineq else rng.randint(-2, 2)
                rows.append(dict(a=a, b=b, q=q))
            mean = rng.random() < .4; wt = rng.choice([1, 1, 2, 0]); cons.append(dict(ineq=ineq, damp=rng.choice([0, 1, 1, 2]), wt=wt, mean=mean, rows=rows))
        M.append(dict(x=x, f=[rng.choice([0, 1, 2]) for _ in x], steps=4, cons=cons))
    O = []
    F = [[0, 1], [1, 2], [1, 1], [3, 2], [2, 1], [1, 4], [4, 1], [5, 4]]
    for k in range(200 if T else 30):
        n = rng.choice([1, 2, 5, 9]); xmin, xmax = rng.choice([0, 1, 48]), rng.choice([480, 480, 400])
        O.append(dict(rho=[rng.choice([xmin, xmax, 120, 240, 360, 64, 32, 480 if k % 5 == 0 else 96]) for _ in range(n)], dv=[rng.choice([1, 1, 2, 5]) if k % 3 else 1 for _ in range(n)], move=rng.choice([96, 24, 480, 5]), xmin=xmin, xmax=xmax,
                      menu=[[rng.choice(F) if e % 4 or j % 2 else rng.choice(F[:3]) for e in range(n)] for j in range(4)]))
    def mul():
        r = ck.tlc("Multipliers", dict(ScenFile='"s.json"', Emit="TRUE"), files={"s.json": M}, spec="Spec", invariants=["MultiplierIsAccumulatedViolation", "FeasibleStartsBalanced"], properties=["Rest"], workers=2)
        R["mul"] = [(M[x["n"] - 1], x["log"]) for x in r.records if x["log"]]
    def oc():
        r = ck.tlc("OCStep", dict(ScenFile='"s.json"', MaxLen=3, Emit="TRUE"), files={"s.json": O}, spec="Spec", invariants=["Bounded", "MoveLimit", "Meets", "Monotone"], args=["-simulate", f"num={2500 if T else 350}", "-depth", "6", "-seed", ck.seed], workers=1)
        R["oc"] = [(O[x["m"] - 1], x["log"]) for x in r.records]
    def ocall(): ck.tlc("OCStep", dict(ScenFile='"s.json"', MaxLen=2, Emit="FALSE"), files={"s.json": O[:12]}, spec="Spec", invariants=["Bounded", "MoveLimit", "Meets", "Monotone"], workers=2)
    ck.threads([mul, oc, ocall], 3)
    R["mul"].sort(key=lambda z: repr(z)); ck.traces += len(R["mul"]) + len(R["oc"]); ck.sample(R["mul"][0]); ck.sample(R["oc"][0])
    ck.pool([("multipliers", dict(items=R["mul"][i::5], seed=ck.seed + i)) for i in range(5)] + [("ocs", dict(items=R["oc"][i::2], seed=ck.seed + i)) for i in range(2)], nproc=7)
    ck.assumptions += ["the optimality-criteria step stops its bisection at a relative multiplier tolerance: densities are compared at that tolerance", "plain gradient steps (learning rate 1, and dyadic rates with inverse weights)"]


def multipliers(emit, arg):
    import numpy as np, jax, jax.numpy as jnp, optax
    from feax.gene import mdmm
    rng = random.Random(arg["seed"])
    for i, (s, log) in enumerate(arg["items"]):
        key = f"m:{i}:{arg['seed']}"; lr = rng.choice([1.0, .25]); sc = 1 / lr; fl = []
        def fun(c):
            a = jnp.array([r["a"] for r in c["rows"]], float); b = jnp.array([r["b"] for r in c["rows"]], float); q = jnp.array([r["q"] for r in c["rows"]], float); m = len(c["rows"])
            sh = (m,) if m != 4 else rng.choice([(4,), (2, 2)])
            if m == 1 and rng.random() < .5: sh = ()
            return (lambda x, scale=1.0, **kw: scale * (a @ x + b + q * x[0] ** 2).reshape(sh)), sh
        built = []
        for c in s["cons"]:
            f, sh = fun(c); fl.append(sh); m = len(c["rows"]); kw = {}
            if c["mean"]: kw["reduction"] = jnp.mean
            w = c["wt"] * sc * (m if c["mean"] else 1)
            if w != 1 or rng.random() < .5: kw["weight"] = float(w)
            if c["damp"] != 1 or rng.random() < .5: kw["damping"] = float(c["damp"])
            built.append((mdmm.ineq if c["ineq"] else mdmm.eq)(f, **kw))
        # combine in a random nesting; remember the path of each constraint
        def nest(idx):
            if len(idx) == 1 and rng.random() < .6: return built[idx[0]], {idx[0]: ()}
            k = rng.randint(1, len(idx)); parts = [idx[:k]] + ([idx[k:]] if idx[k:] else []); subs = [nest(p) if len(p) < len(idx) else (built[p[0]], {p[0]: ()}) if len(p) == 1 else (mdmm.combine(*[built[t] for t in p]), {t: (u,) for u, t in enumerate(p)}) for p in parts]
            paths = {}
            for u, (_, d) in enumerate(subs): paths.update({t: (u,) + q for t, q in d.items()})
            return mdmm.combine(*[z[0] for z in subs]), paths
        con, paths = nest(list(range(len(built))))
        def at(t, p):
            for k in p: t = t[k]
            return t
        x = jnp.array(s["x"], float); f = jnp.array(s["f"], float) * sc; kw = {} if i % 2 else dict(scale=1.0)
        P = (x, con.init(x, **kw)) if rng.random() < .5 else dict(x=x, c=con.init(x, **kw)); isd = isinstance(P, dict); X = lambda t: t["x"] if isd else t[0]; Cc = lambda t: t["c"] if isd else t[1]
        def total(t):
            l, inf = con.loss(Cc(t), X(t), **kw); return l + f @ X(t) ** 2 / 2, (l, inf)
        gr = jax.value_and_grad(total, has_aux=True); gr = jax.jit(gr) if i % 4 == 0 else gr
        mode = rng.choice(["optax", "manual"]); opt = optax.chain(optax.sgd(lr), mdmm.optax_prepare_update()); st = opt.init(P)
        for k, o in enumerate(log):
            kk = f"{key}:{k}"; ok = np.array_equal(X(P), o["x"]); lk = sk = ik = True
            (v, (l, inf)), g = gr(P)
            for c in range(len(built)):
                q = at(Cc(P), paths[c]); lk &= isinstance(q["lambda"], mdmm.LagrangeMultiplier) and q["lambda"].value.shape == fl[c] and np.array_equal(np.ravel(q["lambda"].value), o["lam"][c])
                if s["cons"][c]["ineq"]: sk &= np.array_equal(np.ravel(q["slack"]), o["sl"][c])
                ik &= np.array_equal(np.ravel(at(inf, paths[c])), o["inf"][c]) and at(inf, paths[c]).shape == fl[c]
            emit(kk + ":x", ok, "design follows gradient descent", dict(s=s, got=X(P), want=o["x"])); emit(kk + ":lam", bool(lk), "multipliers accumulate their own violation", dict(s=s, P=repr(P), want=o["lam"]))
            emit(kk + ":sl", bool(sk), "slack dynamics", dict(s=s, P=repr(P), want=o["sl"])); emit(kk + ":inf", bool(ik), "violations reported per constraint", dict(s=s, inf=repr(inf), want=o["inf"]))
            emit(kk + ":loss", bool(np.isclose(float(l), o["loss2"] / 2 * sc, rtol=1e-12)), "loss value", dict(s=s, got=float(l), want=o["loss2"] / 2 * sc))
            if not (ok and lk and sk): break
            if mode == "optax": u, st = opt.update(g, st, P); P = optax.apply_updates(P, u)
            else: P = jax.tree.map(lambda p, d: p - lr * d, P, mdmm.prepare_update(g))


def ocs(emit, arg):
    import numpy as np
    from feax.gene.narrowband import oc_update
    rng = random.Random(arg["seed"])
    for i, (s, log) in enumerate(arg["items"]):
        dv = np.array(s["dv"], float); lam = 10.0 ** rng.choice([-10, -6, 0, 0, 3, 8, 9, 12, 15, 20]); vs = 10.0 ** rng.choice([0, 0, -4, 3]); damp = rng.choice([.5, .5, 1.0, .25]); key = f"o:{arg['seed']}.{i}:{lam}:{damp}"
        rho = np.array(log[0]["rho"]) / U; tol = dict(bisect_tol=1e-13) if i % 3 else {}
        for k, r in enumerate(log):
            f = np.array([a / b for a, b in s["menu"][r["j"] - 1]]); dc = -lam * dv * f ** (1 / damp); z = np.array([a == 0 for a, _ in s["menu"][r["j"] - 1]]); dc = np.where(z, rng.choice([0.0, 1.0]) * lam, dc)
            kw = dict(dv=dv * vs) if len(set(s["dv"])) > 1 or rng.random() < .5 else {}
            if kw: dc = dc * vs
            if damp != .5 or rng.random() < .3: kw["damping"] = damp
            a0, b0 = rho.copy(), dc.copy()
            got = oc_update(rho, dc, r["target"] / U / dv.sum(), move=s["move"] / U, xmin=s["xmin"] / U, xmax=s["xmax"] / U, **kw, **tol); want = np.array(r["new"]) / U; kk = f"{key}:{k}:{r['kind']}"
            eps = 1e-9 if tol else 4e-4
            emit(kk, got.shape == want.shape and bool(np.abs(got - want).max() < eps), "fixed-point update within the limits", dict(s=s, step=r, got=got * U, lam=lam, damp=damp))
            lo, hi = np.clip(rho - s["move"] / U, s["xmin"] / U, s["xmax"] / U), np.clip(rho + s["move"] / U, s["xmin"] / U, s["xmax"] / U); emit(kk + ":box", bool((got >= lo - 1e-15).all() and (got <= hi + 1e-15).all()), "bounds and move limit", dict(got=got, lo=lo, hi=hi))
            if r["kind"] == "meet": emit(kk + ":vol", abs(got @ dv - r["target"] / U) < eps * dv.sum(), "volume target met when it can be", dict(s=s, got=got @ dv, want=r["target"] / U, lam=lam))
            emit(kk + ":pure", np.array_equal(rho, a0) and np.array_equal(dc, b0), "inputs unchanged")
            rho = want
