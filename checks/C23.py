"""C23 fibre orientation: populations of fibres, their moment tensors, closures, averaged stiffness and design boxes.  Spec: Orient (finite populations of rational frames: exact moments and
exact average of the turned lamina; closures and design maps as rational functions).  TLC's exact tensors are replayed through feax.mechanics.orientation and shell."""
import math, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
B3 = [[1, 2, 2], [2, 1, -2], [2, -2, 1]]


def frame(rng, d):
    if d == 2: c, s = rng.choice([(3, 4), (4, 3), (5, 0), (0, 5), (-3, 4), (4, -3), (-4, -3), (-5, 0)]); return [[c, -s], [s, c]]
    M = [[3 * (i == j) for j in range(3)] for i in range(3)] if rng.random() < .35 else B3; p, q = rng.sample(range(3), 3), rng.sample(range(3), 3); sg = [rng.choice([-1, 1]) for _ in range(6)]
    return [[sg[i] * sg[3 + j] * M[p[i]][q[j]] for j in range(3)] for i in range(3)]


def gen(rng, T):
    S = []; R = rng.randint; m = 5 if T else 1
    for k in range(22 * m):
        d = 2 + k % 2; n = rng.choice([1, 1, 2, 3, 5]); s = dict(kind="odf", d=d, den=5 if d == 2 else 3, fib=[dict(R=frame(rng, d), w=R(1, 3)) for _ in range(n)], G=R(1, 6), af=R(-3, 3), at=R(-3, 5))
        while 1:
            s.update(E1=R(1, 5), E2=R(1, 4), n=R(-3, 4), k=R(-3, 5))
            if 100 * s["E1"] - s["n"] ** 2 * s["E2"] > 20 and 100 * s["E1"] - 10 * s["k"] * s["E1"] - 2 * s["n"] ** 2 * s["E2"] > 20: break
        if k % 5 == 4: s["fib"] = [dict(R=[[5, 0], [0, 5]] if d == 2 else [[3, 0, 0], [0, 3, 0], [0, 0, 3]], w=1)]
        S.append(s)
    for k in range(24 * m):
        d = 2 + k % 2; q = R(1, 12); A = [[0] * d for _ in range(d)]
        for a in range(d):
            for b in range(a): A[a][b] = A[b][a] = R(-q // 3, q // 3)
            A[a][a] = R(0, q // d)
        if k % 3 == 0: A[0][0] += q - sum(A[a][a] for a in range(d))
        if k % 6 == 1: q = d * R(1, 4); A = [[q // d * (a == b) for b in range(d)] for a in range(d)]
        if k % 6 == 2: v = [R(-2, 2) for _ in range(d)]; v[0] = v[0] or 1; q = sum(x * x for x in v); A = [[x * y for y in v] for x in v]
        S.append(dict(kind="clo", d=d, q=q, A=A))
    for k in range(14 * m):
        q = R(2, 12); a = R(0, q - 1); b = R(0 if a else 1, q - a); h = int(math.isqrt(a * b)); c = R(-h, h)
        if k % 4 == 3: x, y = R(-3, 3), R(1, 3); q = x * x + y * y + R(0, 2); a, b, c = x * x, y * y, x * y
        S.append(dict(kind="cf", A=[[a, c], [c, b]], q=q, y=rng.choice([[0, 0], [3, 4], [-5, 0], [1, -2], [0, 5], [-3, -1]])))
    S.append(dict(kind="box", x=[[a, b] for a in range(-4, 5) for b in range(-4, 5)])); S.append(dict(kind="box", x=[[a, b, c] for a in range(-4, 5, 2 - T) for b in range(-4, 5, 2 - T) for c in range(-4, 5, 2 - T)]))
    for i, s in enumerate(S): s["id"] = i
    return S


def main(ck):
    rng = ck.rng(ck.seed * 29 + 23); S = gen(rng, ck.thorough); N = 4; R = []
    ck.threads([lambda p=S[i::N]: R.append(ck.tlc("Orient", dict(ScenFile='"s.json"', Emit="TRUE"), files={"s.json": p}, spec="Spec", invariants=["AllOK", "MapOK"], workers=1)) for i in range(N)], N)
    rec = {x["id"]: x for r in R for x in r.records}; ck.traces += len(rec); ck.sample({"kinds": {k: sum(s["kind"] == k for s in S) for k in {s["kind"] for s in S}}})
    items = [(s, rec[s["id"]]) for s in S]; ck.pool([("replay", dict(items=items[i::5], seed=ck.seed + i)) for i in range(5)], nproc=5)
    ck.assumptions += ["fibre directions are rational (3-4-5, 1-2-2), design points multiples of 1/4; square roots and tanh of the off-diagonal terms are compared with their closed form in floating point"]


def replay(emit, arg):
    import numpy as np, jax, warnings
    jax.config.update("jax_enable_x64", True); warnings.simplefilter("ignore")
    rng = random.Random(arg["seed"])
    for s, r in arg["items"]: globals()["do_" + s["kind"]](emit, s, r, rng)


def cmp(emit, key, clause, got, want, tol=1e-10):
    import numpy as np
    g, w = np.asarray(got, float), np.asarray(want, float); ok = g.shape == w.shape and bool(np.all(np.abs(g - w) <= tol * (1 + np.abs(w).max(initial=0))))
    emit(key, ok, clause, f"shape {g.shape} / {w.shape}, off by {np.abs(g - w).max(initial=0) if g.shape == w.shape else '-'} of {np.abs(w).max(initial=0):.3g}")


def do_odf(emit, s, r, rng):
    import numpy as np, jax, jax.numpy as jnp
    from feax.mechanics import orientation as o, shell as sh
    key = f"odf{s['id']}"; W, d2 = float(r["W"]), float(s["den"]) ** 2; a2, a4 = np.array(r["a2"]) / (W * d2), np.array(r["a4"]) / (W * d2 * d2); C = np.array(r["C"]) / (W * d2 * d2 * r["dq"]); d = s["d"]
    f = (lambda x, y: o.orientation_averaged_stiffness(x, y, float(s["E1"]), float(s["E2"]), float(s["G"]), s["n"] / 10)) if d == 2 else (lambda x, y: o.orientation_averaged_stiffness_3d(x, y, float(s["E1"]), float(s["E2"]), float(s["G"]), s["n"] / 10, s["k"] / 10))
    cmp(emit, key + ":C", f"{d}D averaged stiffness is the average of the turned laminae", (jax.jit(f) if rng.random() < .3 else f)(jnp.asarray(a2), jnp.asarray(a4)), C)
    if d == 2: cmp(emit, key + ":cte", "expansion of a population", sh.thermal_expansion_from_orientation(jnp.asarray(a2), float(s["af"]), float(s["at"])), np.array(r["cte"]) / (W * d2))
    w, v = np.linalg.eigh(a2)
    if w[-1] - w[-2] > 1e-6:
        for sc in (True, False):
            p = np.asarray(o.principal_direction(jnp.asarray(a2), scale_by_alignment=sc) if not sc or rng.random() < .5 else o.principal_direction(jnp.asarray(a2)))
            l = np.linalg.norm(p); u = p / l; emit(f"{key}:pd{sc}", abs(l - (w[-1] if sc else 1)) < 1e-9 and np.linalg.norm(a2 @ u - w[-1] * u) < 1e-9, "principal direction", f"{p} of {a2.tolist()}")
        st = np.stack([a2, np.eye(d) / d + np.diag([.1] + [0] * (d - 1)), a2]); b = np.asarray(o.principal_direction(jnp.asarray(st)[None])); emit(key + ":pdb", b.shape == (1, 3, d) and np.allclose(np.abs(b[0, 0] @ b[0, 2]), w[-1] ** 2) and np.allclose(np.abs(b[0, 1]), (1 / d + .1) * np.eye(d)[0]), "principal directions of a field", f"{b.shape}")
    if len(s["fib"]) == 1: cmp(emit, key + ":uni", "quadratic and hybrid closures are exact for aligned fibres", np.stack([o.quadratic_closure(jnp.asarray(a2)), o.hybrid_closure(jnp.asarray(a2))]), np.stack([a4, a4]))
    if d == 2 and len({tuple(map(tuple, x["R"])) for x in s["fib"]}) == 1: cmp(emit, key + ":cfu", "closure-free tensor is exact for aligned fibres", o.build_a4_2d(jnp.asarray(a2), .3, -.4), a4)


def do_clo(emit, s, r, rng):
    import numpy as np, jax.numpy as jnp
    from feax.mechanics import orientation as o
    key = f"clo{s['id']}"; q = float(s["q"]); d = s["d"]; A = jnp.asarray(np.array(s["A"]) / q); c = 24. if d == 2 else 35.
    cmp(emit, key + ":q", "quadratic closure", o.quadratic_closure(A), np.array(r["quad"]) / q ** 2); cmp(emit, key + ":l", "linear closure", o.linear_closure(A), np.array(r["lin"]) / (c * q)); cmp(emit, key + ":h", "hybrid closure", o.hybrid_closure(A), np.array(r["hyb"]) / (c * q ** (4 if d == 2 else 5)))
    if s["id"] % 5 == 0:
        for f in (o.linear_closure, o.hybrid_closure):
            try: f(jnp.eye(4) / 4); ok = False
            except ValueError: ok = True
            emit(f"{key}:{f.__name__}", ok, "unsupported dimensions are refused", "accepted")


def do_cf(emit, s, r, rng):
    import numpy as np, jax, jax.numpy as jnp
    from feax.mechanics import orientation as o
    key = f"cf{s['id']}"; A = np.array(s["A"]) / float(s["q"]); f = np.array(r["f"], float) / (40. * s["q"] * r["t"]); W = np.zeros((2,) * 4)
    for ix in np.ndindex(2, 2, 2, 2): n = sum(ix); W[ix] = {0: f[0], 4: f[1], 2: f[2], 1: f[3], 3: f[4]}[n]
    g = o.build_a4_2d(jnp.asarray(A), s["y"][0] / 5, s["y"][1] / 5); cmp(emit, key, "closure-free fourth moment", g, W, 1e-9); cmp(emit, key + ":c", "contracts to the second moment at any trace", np.einsum("ijkk->ij", np.asarray(g)), A, 1e-9)
    J = jax.jacrev(lambda a: jnp.einsum("ijkk->ij", o.build_a4_2d(a, s["y"][0] / 5, s["y"][1] / 5)).sum())(jnp.asarray(A)); emit(key + ":g", bool(np.all(np.isfinite(np.asarray(J)))), "derivatives are finite", f"{J}")
    z = np.asarray(o.build_a4_2d(jnp.zeros((2, 2)), .5, .1)); emit(key + ":0", np.all(z == 0), "an empty element has no fibres", f"{z.ravel()[:3]}")


def do_box(emit, s, r, rng):
    import numpy as np, jax, jax.numpy as jnp
    from feax.mechanics import orientation as o
    X = np.array(s["x"]) / 4.; d = X.shape[1]; W = np.array(r["r"], float) / (1024. if d == 2 else 3072.); f = o.box_to_triangle if d == 2 else o.box_to_tetrahedron; key = f"box{d}"
    one = np.array([np.stack(f(*[float(v) for v in x])) for x in X[::3]]); cmp(emit, key + ":1", "design box maps onto the admissible simplex", one, W[::3], 5e-6)
    cmp(emit, key + ":v", "vectorised over elements", np.stack(jax.vmap(f)(*[jnp.asarray(X[:, a]) for a in range(d)]), 1), W, 5e-6)
    for n in (1, 3, 8, len(X)):
        try: g = np.stack(f(*[jnp.asarray(X[:n, a]) for a in range(d)]), 1)
        except Exception as e: g = np.zeros(0); emit(f"{key}:a{n}", False, "arrays of design points", f"{type(e).__name__}: {str(e)[:100]}"); continue
        cmp(emit, f"{key}:a{n}", "arrays of design points", g, W[:n], 5e-6)
    for x in (0., .25, -.5, 1., -1.):
        for be in (10., 2.): cmp(emit, f"{key}:s{x}{be}", "smoothed sign", o.smooth_sgn(jnp.asarray(x), be) if be != 10. else o.smooth_sgn(jnp.asarray(x)), math.tanh(be * x) / math.tanh(be))
    for k in range(0, len(X), 5):
        y = [rng.choice([-1., -.3, 0., .05, .4, 1.]) for _ in range(1 if d == 2 else 3)]; be = rng.choice([10., 3.]); out = (o.orientation_tensor_2d if d == 2 else o.orientation_tensor_3d)(*[float(v) for v in X[k]], *y, **({} if be == 10. else dict(sgn_beta=be))); a = np.asarray(np.stack(out[1:])); q = lambda i, j, t: math.sqrt(max(a[i] * a[j], 0)) * math.tanh(be * t) / math.tanh(be)
        E = np.array([[a[0], q(0, 1, y[0])], [q(0, 1, y[0]), a[1]]]) if d == 2 else np.array([[a[0], q(0, 1, y[0]), q(0, 2, y[1])], [q(0, 1, y[0]), a[1], q(1, 2, y[2])], [q(0, 2, y[1]), q(1, 2, y[2]), a[2]]])
        cmp(emit, f"{key}:t{k}", "orientation tensor of a design point", out[0], E); cmp(emit, f"{key}:d{k}", "diagonal of a design point", a, W[k], 5e-6)
