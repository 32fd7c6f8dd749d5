"""C22 stacks of plies: laminates, plates, layered solids and wound vessels.  Spec: Plies (rational rotations, integer thicknesses: laminate integrals, plate and layered-solid virtual work,
engineering constants and the vessel's structure in exact arithmetic).  TLC's exact results are replayed through feax.mechanics shell, layered_solid_element and copv."""
import math, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
CS = [[3, 4], [4, 3], [5, 0], [0, 5], [-3, 4], [4, -3], [-5, 0], [-4, -3], [3, -4]]
AX = [([0, 0, 1], 1), ([0, 0, -2], 2), ([1, 0, 0], 1), ([0, -1, 0], 1), ([1, 2, 2], 3), ([2, -1, 2], 3), ([-2, 2, 1], 3)]


def sym(rng, n, a=4, pd=True): 
    M = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i): M[i][j] = M[j][i] = rng.randint(-a // 2, a // 2)
        M[i][i] = rng.randint(1, 2 * a) if pd else rng.randint(-a, a)
    return M


def gen(rng, T):
    S = []; m = 4 if T else 1; R = rng.randint
    for n in ([1, 2, 3, 3, 4, 5, 8] * 2 * m):
        same = rng.random() < .4; C = sym(rng, 3); G = sym(rng, 2); al = sym(rng, 2, pd=False)
        L = [dict(C=C if same else sym(rng, 3), G=G if same else sym(rng, 2), al=al if same else sym(rng, 2, pd=False), cs=rng.choice(CS), t=R(1, 3 if n < 6 else 1)) for _ in range(n)]
        if rng.random() < .35: L = L + L[::-1] if n < 4 else L[:n // 2] + L[:n // 2][::-1]
        S.append(dict(kind="lam", L=L, der=int(len(L) < 4 and sum(l["t"] for l in L) < 8)))
    for k in range(12 * m):
        S.append(dict(kind="mind", gw=[[R(-3, 3), R(-3, 3)] for _ in range(3)], gt=[[R(-3, 3), R(-3, 3)] for _ in range(2)], th=[R(-3, 3), R(-3, 3)], A=sym(rng, 3), B=sym(rng, 3, pd=False) if k % 3 else [[0] * 3] * 3,
                      D=sym(rng, 3), G=sym(rng, 2), NT=sym(rng, 2, pd=False) if k % 4 else [[0, 0]] * 2, MT=sym(rng, 2, pd=False) if k % 4 else [[0, 0]] * 2, nl=k % 2))
    for k in range(10 * m):
        aff = lambda: [[R(-2, 2) for _ in range(3)] for _ in range(5)]
        S.append(dict(kind="plate", a=R(2, 3), b=R(1, 3), u=aff(), v=[aff() for _ in range(4)], A=sym(rng, 3), B=sym(rng, 3, pd=False) if k % 3 else [[0] * 3] * 3, D=sym(rng, 3), G=sym(rng, 2),
                      NT=sym(rng, 2, pd=False) if k % 4 else [[0, 0]] * 2, MT=sym(rng, 2, pd=False) if k % 4 else [[0, 0]] * 2, nl=k % 2))
    mat = lambda: (lambda ax: dict(C=sym(rng, 6), al=sym(rng, 3, pd=False), ax=ax[0], nr=ax[1], cs=rng.choice(CS)))(rng.choice(AX))
    for k in range(10 * m): S.append(dict(kind="rot3", **mat()))
    for k in range(18 * m):
        while 1:
            E = [R(1, 4) for _ in range(3)]; nu = [R(-3, 4) for _ in range(3)]
            if k % 3 == 1: E = [E[0]] * 3; nu = [nu[0]] * 3
            if k % 3 == 2: E = [E[0], E[1], E[1]]; nu = [nu[0], nu[0], nu[2]]
            s12, s13, s23 = -nu[0] / 10 / E[0], -nu[1] / 10 / E[0], -nu[2] / 10 / E[1]
            d = 1 / E[0] * (1 / E[1] / E[2] - s23 * s23) - s12 * (s12 / E[2] - s13 * s23) + s13 * (s12 * s23 - s13 / E[1])
            if d > 1e-3 and 1 / E[0] / E[1] - s12 ** 2 > 1e-3: break
        S.append(dict(kind="ortho", E=E, nu=nu, G=[R(1, 9) for _ in range(3)]))
    for k in range(10 * m):
        nx, ny = rng.choice([(1, 1), (2, 1), (2, 2), (3, 1)]); cells = [[x, y] for x in range(nx) for y in range(ny)]; np_ = R(1, 4); t = [R(1, 3) for _ in range(np_)]
        M = [[1 if i == j else 0 for j in range(3)] for i in range(3)]
        for _ in range(R(0, 2)):
            i, j = rng.sample(range(3), 2); e = rng.choice([-1, 1]); M[i] = [a + e * b for a, b in zip(M[i], M[j])]
        inv = [[round(v) for v in r] for r in _inv(M)]
        field = lambda n: [dict(c=R(1, 3), k=rng.choice([-2, -1, 1, 2]), m=[R(0, 1) for _ in range(3)]) for _ in range(n)]
        lin = lambda: [dict(c=c, k=rng.choice([-2, -1, 1, 2]), m=[int(a == b) for b in range(3)]) for c in (1, 2, 3) for a in range(3) if rng.random() < .7] or [dict(c=1, k=1, m=[1, 0, 0])]
        S.append(dict(kind="solid", cells=cells, dims=[nx, ny], t=t, M=M, inv=inv, u=field(5), v=[lin(), field(4), field(4)], mats=[mat() for _ in range(3)], uni=k % 2,
                      pm=[[R(1, 3) for _ in t] for _ in cells], dT=[R(-3, 3) for _ in cells], sig=sym(rng, 3, pd=False)))
    for k in range(5 * m):
        S.append(dict(kind="copv", nc=rng.choice([3, 4, 5, 8]), mc=R(1, 3), md=R(1, 3), nf=R(1, 3), lay=[rng.choice([0, 0, 1, -1]) for _ in range(R(1, 5))], drop=int(rng.random() < .6)))
    for i, s in enumerate(S): s["id"] = i
    return S


def _inv(M):
    import numpy as np
    return np.linalg.inv(np.array(M, float)).tolist()


def main(ck):
    rng = ck.rng(ck.seed * 17 + 22); S = gen(rng, ck.thorough); N = 6 if ck.thorough else 4; P = [S[i::N] for i in range(N)]; R = []
    ck.threads([lambda p=p: R.append(ck.tlc("Plies", dict(ScenFile='"s.json"', Emit="TRUE"), files={"s.json": p}, spec="Spec", invariants=["AllOK"], workers=1)) for p in P], N)
    rec = {x["id"]: x for r in R for x in r.records}; ck.traces += len(rec); ck.sample({"kinds": {k: sum(s["kind"] == k for s in S) for k in {s["kind"] for s in S}}})
    items = [(s, rec[s["id"]]) for s in S]; order = sorted(items, key=lambda q: q[0]["kind"]); nw = 7
    ck.pool([("replay", dict(items=order[i::nw], seed=ck.seed + i)) for i in range(nw)], nproc=nw)
    ck.assumptions += ["angles are rational rotations (3-4-5), thicknesses and stiffness entries integers; dome geometry is compared with the closed form in floating point"]


def replay(emit, arg):
    import numpy as np, jax, warnings, logging
    jax.config.update("jax_enable_x64", True); warnings.simplefilter("ignore"); logging.disable(logging.CRITICAL)
    rng = random.Random(arg["seed"])
    for s, r in arg["items"]: globals()["do_" + s["kind"]](emit, s, r, rng)


def cmp(emit, key, clause, got, want, tol=1e-10):
    import numpy as np
    g, w = np.asarray(got, float), np.asarray(want, float); ok = g.shape == w.shape and bool(np.all(np.abs(g - w) <= tol * (1 + np.abs(w).max(initial=0))))
    emit(key, ok, clause, f"shape {g.shape} / {w.shape}, off by {np.abs(g - w).max(initial=0) if g.shape == w.shape else '-'} of {np.abs(w).max(initial=0):.3g}")


def t2(C):
    import numpy as np
    ix = np.array([[0, 2], [2, 1]]); return np.array(C, float)[ix[:, :, None, None], ix[None, None]]


def t3(C):
    import numpy as np
    ix = np.array([[0, 5, 4], [5, 1, 3], [4, 3, 2]]); return np.array(C, float)[ix[:, :, None, None], ix[None, None]]


def do_lam(emit, s, r, rng):
    import numpy as np, jax, jax.numpy as jnp
    from feax.mechanics import shell as sh
    key = f"lam{s['id']}"; L = s["L"]; C = np.array([t2(l["C"]) for l in L]); G = np.array([l["G"] for l in L], float); al = np.array([l["al"] for l in L], float)
    th = np.array([math.atan2(l["cs"][1], l["cs"][0]) for l in L]); t = np.array([l["t"] for l in L], float); kap = rng.choice([5 / 6, 1.0, .5])
    sc = rng.choice([1., 1., 1e-3, 2.])                                                       # thickness unit
    if all(l["C"] == L[0]["C"] for l in L) and rng.random() < .6: C = C[0]
    if all(l["G"] == L[0]["G"] for l in L) and rng.random() < .6: G = G[0]
    if all(l["al"] == L[0]["al"] for l in L) and rng.random() < .6: al = al[0]
    f = lambda x, q: np.array(x, float) / q
    cmp(emit, key + ":z", "ply interfaces straddle the middle surface", sh.z_layer_coordinates(t * sc), f(r["z2"], 2) * sc)
    kw = {} if kap == 5 / 6 else dict(kappa_s=kap); lam = lambda a, b: sh.laminate_stiffness(C, G, a, b, **kw)
    A, B, D, Gs = (jax.jit(lam) if rng.random() < .4 else lam)(th, t * sc); want = (f(r["a"], 1250), f(r["b"], 5000), f(r["d"], 15000))
    for n, g, w, p in zip("ABD", (A, B, D), want, (1, 2, 3)): cmp(emit, key + ":" + n, "laminate stiffness is the thickness integral of the turned plies", np.asarray(g) / sc ** p, w)
    cmp(emit, key + ":G", "transverse shear stiffness", np.asarray(Gs) / sc, kap * f(r["g"], 25))
    d0, d1 = rng.choice([(1., 0.), (0., 1.), (2., -3.), (-1., .5)]); th1, th2, th3 = (f(x, 25) for x in r["th"])
    N, M = sh.laminate_thermal_loads(C, al, th, t, dT_avg=d0, dT_grad=d1) if (d0, d1) != (1., 0.) or rng.random() < .5 else sh.laminate_thermal_loads(C, al, th, t)
    cmp(emit, key + ":NT", "thermal force", N, d0 * th1 / 2 + d1 * th2 / 8); cmp(emit, key + ":MT", "thermal moment", M, d0 * th2 / 8 + d1 * th3 / 24)
    for k, l in enumerate(L):
        if k > 1: break
        one = sh.rotate_in_plane_stiffness(t2(l["C"]), th[k]); a1 = sh.rotate_thermal_expansion(np.array(l["al"], float), th[k])
        cmp(emit, f"{key}:rot{k}", "a ply loaded by its own expansion carries the turned stress", np.einsum("ijkl,kl->ij", one, a1), _turn(np.einsum("ijkl,kl->ij", t2(l["C"]), np.array(l["al"], float)), l["cs"]))
        cmp(emit, f"{key}:rots{k}", "shear stiffness turns with the ply", sh.rotate_shear_stiffness(np.array(l["G"], float), th[k]), _turn(np.array(l["G"], float), l["cs"]))
    if s["der"]:
        for j, (jac, name) in enumerate(((jax.jacfwd, "f"), (jax.jacrev, "r"))):
            if rng.random() < .5: continue
            da = jac(lambda a: lam(a, jnp.asarray(t))[:3])(jnp.asarray(th)); dt = jac(lambda b: lam(jnp.asarray(th), b)[:3])(jnp.asarray(t))
            for p, q in ((0, 1250), (1, 5000), (2, 15000)):
                cmp(emit, f"{key}:da{name}{p}", "derivative with respect to the ply angles", da[p], np.moveaxis(f([x[p] for x in r["da"]], q), 0, -1), 1e-9)
                cmp(emit, f"{key}:dt{name}{p}", "derivative with respect to the ply thicknesses", dt[p], np.moveaxis(f([x[p] for x in r["dt"]], 12 * q), 0, -1), 1e-9)
    if len(L) == 1 and L[0]["cs"] == [5, 0]:
        A, D, Gs = sh.plate_stiffness(t2(L[0]["C"]), t[0], np.array(L[0]["G"], float), **kw)
        cmp(emit, key + ":p", "single plate stiffness", np.concatenate([np.ravel(A), np.ravel(D), np.ravel(Gs)]), np.concatenate([want[0].ravel(), want[2].ravel(), (kap * f(r["g"], 25)).ravel()]))
    if len(L) > 1:
        for fn in (lambda: sh.laminate_stiffness(C, G, th, t[:-1]), lambda: sh.laminate_thermal_loads(C, al, th[:-1], t)):
            try: fn(); ok = False
            except ValueError: ok = True
            emit(key + ":len", ok, "unequal angle and thickness lists are refused", "accepted")


def _turn(M, cs):
    import numpy as np
    R = np.array([[cs[0], -cs[1]], [cs[1], cs[0]]]) / 5.; return R @ M @ R.T


def _none(x): return None if not any(map(any, x)) else x


def do_mind(emit, s, r, rng):
    import numpy as np
    from feax.mechanics import shell as sh
    key = f"mind{s['id']}"; nl = "von_karman" if s["nl"] else "linear"; gw, gt, th = (np.array(s[k], float) for k in ("gw", "gt", "th")); opt = {}
    if _none(s["B"]): opt["B"] = t2(s["B"])
    if _none(s["NT"]): opt["N_T"] = np.array(s["NT"], float)
    if _none(s["MT"]): opt["M_T"] = np.array(s["MT"], float)
    A, D, G = t2(s["A"]), t2(s["D"]), np.array(s["G"], float); h = lambda k: np.array(r[k]) / 2.
    e, k, g = sh.mindlin_strains(gw, gt, th, nonlinear=nl)
    for n, a, w in (("eps", e, h("eps2")), ("kap", k, h("kap2")), ("gam", g, np.array(r["gam"]))): cmp(emit, f"{key}:{n}", "plate strains", a, w)
    for n, a, w in zip("NMQ", sh.mindlin_resultants(h("eps2"), h("kap2"), np.array(r["gam"], float), A, D, G, **opt), (h("n2"), h("m2"), np.array(r["q"]))): cmp(emit, f"{key}:{n}", "plate resultants", a, w)
    (m0, m1), (g0, g1) = sh.mindlin_weak_form(A, D, G, nonlinear=nl, **opt)([np.zeros(3) + 7, th], [gw, gt], np.zeros(2))
    cmp(emit, key + ":wf", "the weak form is the derivative of the plate energy", np.concatenate([np.ravel(m0), np.ravel(m1), np.ravel(g0), np.ravel(g1)]), np.concatenate([np.zeros(3), np.array(r["q"], float), h("n2").ravel(), h("qw2"), h("m2").ravel()]))
    try: sh.mindlin_strains(gw, gt, th, nonlinear="karman"); ok = False
    except ValueError: ok = True
    emit(key + ":bad", ok, "unknown kinematics are refused", "accepted")


def do_plate(emit, s, r, rng):
    import numpy as np, jax.numpy as jnp, feax as fe
    from feax.mechanics import shell as sh
    from feax.assembler import get_res, get_jacobian
    import fx
    key = f"plate{s['id']}"; ele = rng.choice(["QUAD4", "QUAD4", "TRI3", "TRI6", "QUAD8", "QUAD9"]); nx, ny = rng.choice([(2, 2), (3, 2), (1, 1)]); jit = lambda: rng.choice([0, .1, -.1]) if ele in ("QUAD4", "TRI3") else 0
    X = {}
    for i in range(nx + 1):
        for j in range(ny + 1): X[i, j] = ((i + (jit() if 0 < i < nx else 0)) * s["a"] / nx, (j + (jit() if 0 < j < ny else 0)) * s["b"] / ny)
    cells = []
    for i in range(nx):
        for j in range(ny):
            q = [X[i, j], X[i + 1, j], X[i + 1, j + 1], X[i, j + 1]]
            cells += [q] if ele.startswith("QUAD") else ([[q[0], q[1], q[2]], [q[0], q[2], q[3]]] if rng.random() < .5 else [[q[1], q[2], q[3]], [q[1], q[3], q[0]]])
    mid = lambda a, b: tuple((x + y) / 2 for x, y in zip(a, b)); cen = lambda c: tuple(sum(x) / len(c) for x in zip(*c))
    if ele in ("QUAD8", "TRI6", "QUAD9"): cells = [c + [mid(c[i], c[(i + 1) % len(c)]) for i in range(len(c))] + ([cen(c)] if ele == "QUAD9" else []) for c in cells]
    idx = {}; rd = lambda p: (round(p[0], 9), round(p[1], 9)); allp = list({rd(p): p for c in cells for p in c}.values()); rng.shuffle(allp)
    for p in allp: idx[rd(p)] = len(idx)
    P = np.array(allp); mesh = fe.Mesh(P, np.array([[idx[rd(p)] for p in c] for c in cells]), ele)
    opt = {}
    if _none(s["B"]): opt["B"] = jnp.asarray(t2(s["B"]))
    if _none(s["NT"]): opt["N_T"] = jnp.asarray(np.array(s["NT"], float))
    if _none(s["MT"]): opt["M_T"] = jnp.asarray(np.array(s["MT"], float))
    if s["nl"]: opt["nonlinear"] = "von_karman"
    if ele.startswith("TRI"): opt["gauss_order"] = rng.choice([2, 3])
    if ele != "QUAD4": opt["ele_type"] = ele
    pr = sh.make_mindlin_plate(mesh, jnp.asarray(t2(s["A"])), jnp.asarray(t2(s["D"])), jnp.asarray(np.array(s["G"], float)), **opt)
    ev = lambda u: [np.stack([c[0] + c[1] * P[:, 0] + c[2] * P[:, 1] for c in u[:3]], 1), np.stack([c[0] + c[1] * P[:, 0] + c[2] * P[:, 1] for c in u[3:]], 1)]
    from feax import TracedParams
    R = get_res(pr, [jnp.asarray(x) for x in ev(s["u"])], TracedParams()); R = [np.asarray(x) for x in R]
    got = [sum((a.reshape(b.shape) * b).sum() for a, b in zip(R, ev(v))) for v in s["v"]]
    cmp(emit, key, f"virtual work of the plate", got, np.array(r["w24"]) / 24.)


def do_rot3(emit, s, r, rng):
    import numpy as np
    from feax.mechanics import layered_solid_element as ls
    key = f"rot3{s['id']}"; d = float(r["den"]); R = np.asarray(ls.rotation_matrix_axis(math.atan2(s["cs"][1], s["cs"][0]), [float(x) for x in s["ax"]]))
    cmp(emit, key + ":R", "rotation about an axis", R, np.array(r["R"]) / d)
    if s["ax"] == [0, 0, 1]: cmp(emit, key + ":Rz", "rotation about the default axis", ls.rotation_matrix_axis(math.atan2(s["cs"][1], s["cs"][0])), np.array(r["R"]) / d)
    C = np.asarray(ls.voigt_to_tensor(np.array(s["C"], float))); cmp(emit, key + ":v", "Voigt expansion", C, t3(s["C"])); cmp(emit, key + ":b", "Voigt round trip", ls.tensor_to_voigt(C), s["C"])
    cmp(emit, key + ":C", "turned stiffness", ls.tensor_to_voigt(ls.rotate_stiffness_3d(C, np.array(r["R"]) / d)), np.array(r["C"]) / d ** 4)
    cmp(emit, key + ":T", "turned stiffness keeps its symmetries", ls.rotate_stiffness_3d(C, np.array(r["R"]) / d), t3(np.array(r["C"]) / d ** 4))
    cmp(emit, key + ":a", "turned expansion", ls.rotate_cte_3d(np.array(s["al"], float), np.array(r["R"]) / d), np.array(r["al"]) / d ** 2)
    a1, a2 = s["al"][0][0], s["al"][1][1]; cmp(emit, key + ":cte", "expansion tensors", np.stack([ls.isotropic_cte_3d(float(a1)), ls.transverse_isotropic_cte_3d(float(a1), float(a2))]), np.stack([a1 * np.eye(3), np.diag([a1, a2, a2])]))


def do_ortho(emit, s, r, rng):
    import numpy as np
    from feax.mechanics import layered_solid_element as ls, shell as sh
    key = f"ortho{s['id']}"; E = [float(x) for x in s["E"]]; nu = [x / 10. for x in s["nu"]]; G = [float(x) for x in s["G"]]
    W = np.zeros((6, 6)); W[:3, :3] = r["P"] * np.array(r["adj"], float) / r["det"]
    def put(g12, g13, g23): V = W.copy(); V[3, 3], V[4, 4], V[5, 5] = g23, g13, g12; return t3(V)
    cmp(emit, key + ":o", "orthotropic stiffness inverts the engineering compliance", ls.orthotropic_stiffness_3d(*E, *G, *nu), put(*G), 1e-9)
    if E[1] == E[2] and nu[0] == nu[1]: cmp(emit, key + ":t", "transversely isotropic stiffness", ls.transverse_isotropic_stiffness_3d(E[0], E[1], G[0], nu[0], nu[2]), put(G[0], G[0], E[1] / (2 * (1 + nu[2]))), 1e-9)
    q = r["q2"]; Q = np.array([[q["n11"], q["n12"], 0], [q["n12"], q["n22"], 0], [0, 0, 0]], float) * r["P"] / q["d"]; Q[2, 2] = G[0]
    cmp(emit, key + ":2", "plane-stress stiffness inverts the in-plane compliance", sh.orthotropic_in_plane_stiffness(E[0], E[1], G[0], nu[0]), t2(Q))
    if len(set(E)) == 1 and len(set(nu)) == 1:
        g = E[0] / (2 * (1 + nu[0])); cmp(emit, key + ":i", "isotropic stiffness", ls.isotropic_stiffness_3d(E[0], nu[0]), put(g, g, g), 1e-9); Q[2, 2] = g; cmp(emit, key + ":i2", "isotropic plane-stress stiffness", sh.isotropic_in_plane_stiffness(E[0], nu[0]), t2(Q))
        h = rng.choice([1., .5, 3.]); A, D, Gs = sh.plate_stiffness(t2(Q), h, g); cmp(emit, key + ":ip", "homogeneous plate", np.concatenate([np.ravel(A), np.ravel(D), np.ravel(Gs)]), np.concatenate([h * t2(Q).ravel(), h ** 3 / 12 * t2(Q).ravel(), (5 / 6 * h * g * np.eye(2)).ravel()]))


HX = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]


def do_solid(emit, s, r, rng):
    import numpy as np, jax, jax.numpy as jnp, feax as fe
    from feax import TracedParams
    from feax.mechanics import layered_solid_element as ls
    from feax.assembler import get_res, get_jacobian
    key = f"solid{s['id']}"; t = [float(x) for x in s["t"]]; H = sum(s["t"]); npl = len(t); ni, nt = rng.choice([(2, 2), (2, 2), (3, 2), (2, 3)]); q = {} if (ni, nt) == (2, 2) and rng.random() < .7 else dict(n_inplane=ni, n_thick_per_ply=nt)
    # mesh: cells turned about the stacking direction, nodes and cells renumbered
    cs = list(range(len(s["cells"]))); rng.shuffle(cs); nodes = []; cell = []; turn = []
    for c in cs:
        x, y = s["cells"][c]; k = rng.randrange(4); lo = [(x + a, y + b) for a, b, _ in HX[:4]]; lo = lo[k:] + lo[:k]; cell.append([p + (0,) for p in lo] + [p + (H,) for p in lo]); turn.append(k)
    nodes = list({p for c in cell for p in c}); nodes.sort(); rng.shuffle(nodes); ix = {p: i for i, p in enumerate(nodes)}; X = np.array(nodes, float); M = np.array(s["M"], float); sh0 = np.array([rng.randint(-3, 3) for _ in range(3)], float)
    mesh = fe.Mesh(X @ M.T + sh0, np.array([[ix[p] for p in c] for c in cell]), "HEX8")
    ev = lambda f: np.stack([sum((e["k"] * np.prod(X ** np.array(e["m"]), axis=1) for e in f if e["c"] == c), np.zeros(len(X))) for c in (1, 2, 3)], 1)
    u = ev(s["u"]); V = [ev(v) for v in s["v"]]; mats = [(t3(np.array(m["C"]) / float(m["den"]) ** 4), np.array(m["al"]) / float(m["den"]) ** 2) for m in r["mats"]]
    g = np.array(r["g"], float) / 216; f = np.array(r["f"], float) / 216                        # [v][cell][ply]; gradients p,a (u) q,b (v)
    # quadrature
    pts, w, of = (np.asarray(z) for z in ls.layered_reference_quadrature(t, **q)); ok = abs(w.sum() - 1) < 1e-12 and pts.min() > 0 and pts.max() < 1
    for k in range(npl):
        for p in range(3): ok &= abs((w * pts[:, 2] ** p)[of == k].sum() - r["q"][k][str(p)] / 6. / H ** (p + 1)) < 1e-12; ok &= all(abs((w * pts[:, a] ** p)[of == k].sum() - t[k] / H / (p + 1)) < 1e-12 for a in (0, 1))
    emit(key + ":q", bool(ok), "per-ply quadrature has the moments of the ply", f"{t}")
    tp0 = None
    def work(pr, tp, sol=None): R = get_res(pr, [jnp.asarray(u if sol is None else sol)], tp); R = np.asarray(R[0] if isinstance(R, (list, tuple)) else R).reshape(-1, 3); return [(R * v).sum() for v in V]
    # one stack for all cells: material angles about a common normal
    if s["uni"]:
        ms = [dict(s["mats"][i - 1]) for i in s["pm"][0]]; ax = ms[0]["ax"]; same = [i for i in range(npl)]
        Cb = np.array([t3(m["C"]) for m in ms]); ang = [math.atan2(m["cs"][1], m["cs"][0]) if m["ax"] == ax else 0. for m in ms]
        want = [mats[i - 1][0] if s["mats"][i - 1]["ax"] == ax else t3(s["mats"][i - 1]["C"]) for i in s["pm"][0]]
        if len(set(s["pm"][0])) == 1 and rng.random() < .7: Cb = Cb[0]
        nrm = {} if ax == [0, 0, 1] and rng.random() < .6 else dict(normal=ax); pr, tp = ls.create_layered_solid(mesh, Cb, ang, t, **nrm, **q)
        W = [sum((want[k] * np.transpose(g[v, c, k], (2, 3, 0, 1))).sum() for c in range(len(cs)) for k in range(npl)) for v in range(len(V))]
        cmp(emit, key + ":one", f"layered solid integrates every ply over its own extent {q}", work(pr, tp), W, 1e-9)
        J = np.asarray(get_jacobian(pr, [jnp.asarray(u * 0)], tp).todense()); iu = u.reshape(-1); cmp(emit, key + ":K", "stiffness matrix of the layered solid", [v.reshape(-1) @ J @ iu for v in V], W, 1e-9); emit(key + ":sym", np.allclose(J, J.T, atol=1e-8 * (1 + np.abs(J).max())), "stiffness is symmetric", "")
        try: ls.create_layered_solid(mesh, Cb, ang + [0.], t, **q); okl = False
        except ValueError: okl = True
        emit(key + ":len", okl, "unequal angle and thickness lists are refused", "accepted")
        # one ply on an arbitrary (non-affine) mesh is the ordinary solid, whose assembly C01 decides
        md = fe.Mesh(X @ M.T + .15 * np.random.RandomState(rng.randrange(999)).uniform(-1, 1, X.shape), np.asarray(mesh.cells), "HEX8"); C1 = jnp.asarray(want[0]); pr, tp = ls.create_layered_solid(md, Cb if Cb.ndim == 4 else Cb[0], ang[:1], t[:1], **nrm)
        class El(fe.Problem):
            def get_tensor_map(self): return lambda gr: jnp.einsum("ijkl,kl->ij", C1, gr)
        po = El(mesh=md, vec=3, dim=3, ele_type="HEX8"); z = [jnp.zeros((len(X), 3))]; Ka, Kb = (np.asarray(get_jacobian(a, z, b).todense()) for a, b in ((pr, tp), (po, TracedParams()))); cmp(emit, key + ":dist", "a single ply on a distorted mesh is the ordinary solid", Ka, Kb)
        po2, tp2 = ls.create_oriented_layered_solid(md, np.broadcast_to(want[0], (len(cs), 1, 3, 3, 3, 3)), t[:1]); cmp(emit, key + ":dist2", "a single oriented ply on a distorted mesh is the ordinary solid", np.asarray(get_jacobian(po2, z, tp2).todense()), Kb)
    # stiffness per cell and ply, thermal strain per cell
    Cc = np.array([[mats[i - 1][0] for i in s["pm"][c]] for c in cs]); al = np.array([[mats[i - 1][1] for i in s["pm"][c]] for c in cs]); dT = np.array([s["dT"][c] for c in cs], float)
    Wm = [sum((Cc[n, k] * np.transpose(g[v, c, k], (2, 3, 0, 1))).sum() for n, c in enumerate(cs) for k in range(npl)) for v in range(len(V))]
    Wt = lambda d: [sum(d[n] * (np.einsum("ijkl,kl->ij", Cc[n, k], al[n, k]) * f[v, c, k]).sum() for n, c in enumerate(cs) for k in range(npl)) for v in range(len(V))]
    pr, tp = ls.create_oriented_layered_solid(mesh, Cc, t, **q); cmp(emit, key + ":cell", "each cell and ply uses its own stiffness", work(pr, tp), Wm, 1e-9)
    pt, tpt = ls.create_oriented_layered_solid(mesh, Cc, t, with_thermal=True, cte_cell_ply=al, **q); cmp(emit, key + ":th1", "default thermal strain is one degree", work(pt, tpt), np.array(Wm) - Wt(np.ones(len(cs))), 1e-9)
    pz, tpz = ls.create_oriented_layered_solid(mesh, Cc, t, with_thermal=True, **q); cmp(emit, key + ":th0", "no expansion, no thermal load", work(pz, tpz), Wm, 1e-9)
    cq = ls.expand_cte_to_quad(al, t, **q); tf = np.array([rng.randint(-2, 2) for _ in nodes], float)
    vv = tpt.volume_vars; eth = np.asarray(cq) * dT[:, None, None, None]; tpd = TracedParams(volume_vars=(vv[0], vv[1], jnp.asarray(eth)))
    cmp(emit, key + ":thc", "thermal load of a temperature per cell", work(pt, tpd), np.array(Wm) - Wt(dT), 1e-9)
    # temperatures at the nodes: trilinear interpolation at the same points
    cells = np.asarray(mesh.cells); Tq = np.asarray(ls.interpolate_nodal_to_layered_quad(tf[cells], t, **q)); N8 = np.stack([np.prod([pts[:, a] if h[a] else 1 - pts[:, a] for a in range(3)], axis=0) for h in HX], 1)
    cmp(emit, key + ":T", "nodal field at the layered points", Tq, tf[cells] @ N8.T)
    # stress recovery, and geometric stiffness of a uniform prestress
    dN = pr._dNdxi_ref if hasattr(pr, "_dNdxi_ref") else None
    if dN is not None:
        for e, tag in ((None, "m"), (jnp.asarray(eth), "t")):
            sg = np.asarray(ls.layered_quad_stress(dN, vv[0], jnp.asarray(u[cells]), vv[1], *([] if e is None else [e]))); gv = np.zeros((3, 3))
            for x in s["v"][0]: gv[x["c"] - 1] += x["k"] * np.array(s["inv"][x["m"].index(1)], float)
            cmp(emit, f"{key}:s{tag}", "recovered stress does the work of the residual", H * (w[None, :, None, None] * sg * gv).sum(), Wm[0] - (0 if e is None else Wt(dT)[0]), 1e-9)
    sg0 = np.array(s["sig"], float); scal = np.array([[rng.randint(-2, 3) for _ in t] for _ in cs], float); sq = scal[:, of][:, :, None, None] * sg0
    pg, tg = ls.create_layered_solid_geometric_stiffness(mesh, jnp.asarray(sq), t, **q); Kg = np.asarray(get_jacobian(pg, [jnp.zeros_like(jnp.asarray(u))], tg).todense())
    Wg = [sum(scal[n, k] * np.einsum("ab,papb->", sg0, g[v, c, k]) for n, c in enumerate(cs) for k in range(npl)) for v in range(len(V))]
    cmp(emit, key + ":Kg", "geometric stiffness of the prestress", [v.reshape(-1) @ Kg @ u.reshape(-1) for v in V], Wg, 1e-9)
    for bad in (lambda: ls.create_oriented_layered_solid(mesh, Cc, t + [1.], **q), lambda: ls.create_oriented_layered_solid(mesh, Cc, t, with_thermal=True, cte_cell_ply=np.concatenate([al, al], 1), **q)):
        try: bad(); okl = False
        except ValueError: okl = True
        emit(key + ":bad", okl, "mismatched ply data are refused", "accepted")


def do_copv(emit, s, r, rng):
    import numpy as np, jax, jax.numpy as jnp, feax as fe
    from feax.mechanics import copv as cv, layered_solid_element as ls
    key = f"copv{s['id']}"; a, st, gap, Lc, rp = rng.choice([(96., 4., 16., 150., 25.), (10., 1., 2., 8., 3.), (5., .25, 1., 4., 4.)]); geo = cv.DoubleWallCopvGeometry(a=a, shell_t=st, gap=gap, cyl_len=Lc, polar_radius=rp, n_circum=s["nc"], n_merid_cyl=s["mc"], n_merid_dome=s["md"], n_fill=s["nf"])
    cm = cv.create_double_wall_copv_mesh(geo); nc, nl, nm = s["nc"], s["nf"] + 3, s["mc"] + s["md"]; nid = lambda i, j, k: (i * nc + j % nc) * nl + k; cells = np.asarray(cm.cells); want = {frozenset(c["n"]): c for c in r["cells"]}
    d = np.array([0, st] + [st + gap * (i + 1) / s["nf"] for i in range(s["nf"])] + [2 * st + gap]); P = np.zeros((len(np.asarray(cm.points)), 3)); lmax = math.acos(rp / a); ids = np.array([[[cm.node_id(i, j, k) for k in range(nl)] for j in range(nc)] for i in range(nm + 1)])
    emit(key + ":ids", sorted(ids.ravel().tolist()) == list(range(len(P))) and cm.node_id(1, nc + 1, 0) == cm.node_id(1, 1, 0), "node numbers are a bijection and wrap", ""); back = {int(ids[i, j, k]): nid(i, j, k) for i in range(nm + 1) for j in range(nc) for k in range(nl)}
    for i in range(nm + 1):
        for j in range(nc):
            th = 2 * math.pi * j / nc; la = 0 if i <= s["mc"] else lmax * (i - s["mc"]) / s["md"]; z0 = Lc * min(i, s["mc"]) / s["mc"]
            for k in range(nl): rr = (a + d[k]) * math.cos(la); P[ids[i, j, k]] = [rr * math.cos(th), rr * math.sin(th), z0 + (a + d[k]) * math.sin(la)]
    cmp(emit, key + ":x", "nodes lie on the offset mould lines", cm.points, P, 1e-12); cmp(emit, key + ":d", "layer offsets", geo.d_layers, d)
    got = [frozenset(back[int(n)] for n in c) for c in cells]; emit(key + ":cells", len(set(got)) == len(got) == len(want) and set(got) == set(want), "cells tile the closed ring once", f"{len(got)} {len(want)}")
    if set(got) != set(want): return
    W = [want[g] for g in got]; emit(key + ":zone", np.asarray(cm.cell_zone).tolist() == [c["z"] for c in W], "zone labels", ""); emit(key + ":dome", np.asarray(cm.dome_cell_mask()).tolist() == [c["d"] for c in W], "dome cells", "")
    ok = all(back[int(c[4 + m])] == back[int(c[m])] + 1 for c in cells for m in range(4)); X = P[cells]; vol = np.einsum("ci,ci->c", np.cross(X[:, 1] - X[:, 0], X[:, 3] - X[:, 0]), X[:, 4] - X[:, 0]); emit(key + ":or", ok and bool((vol > 0).all()), "cells are positively oriented with the laminate along the last axis", "")
    # selectors
    A = lambda z: sorted(int(back[int(n)]) for n in np.asarray(z)); full = lambda I, K: sorted(nid(i, j, k) for i in I for j in range(nc) for k in K)
    for n, g, w in (("eq", cm.equator_node_ids(), full([0], range(nl))), ("rim", cm.rim_inner_node_ids(), full([nm], [0, 1])), ("out", cm.outer_surface_node_ids(), full(range(nm + 1), [nl - 1])), ("in", cm.inner_surface_node_ids(), full(range(nm + 1), [0]))): emit(f"{key}:{n}", A(g) == w, "node sets", n)
    emit(key + ":rr", abs(cm.rim_inner_radius() - rp) < 1e-9 * a, "rim radius", f"{cm.rim_inner_radius()} {rp}")
    eq = np.asarray(cm.equator_node_ids()); emit(key + ":ax", sorted(np.asarray(cm.equator_axial_dofs()).tolist()) == sorted((eq * 3 + 2).tolist()), "equator dofs", "")
    pins = np.asarray(cm.rigid_inplane_pin_dofs()); rig = np.zeros((len(P) * 3, 3)); rig[0::3, 0] = 1; rig[1::3, 1] = 1; rig[0::3, 2] = -P[:, 1]; rig[1::3, 2] = P[:, 0]; emit(key + ":pin", np.linalg.matrix_rank(rig[pins] / [1, 1, a]) == 3 and len(set(pins.tolist())) == 3, "pins remove every in-plane rigid motion and no more", f"{pins}")
    fr = np.asarray(cm.buckling_free_dofs(3 * len(P))); emit(key + ":free", sorted(fr.tolist()) == sorted(set(range(3 * len(P))) - set((eq * 3 + 2).tolist()) - set(pins.tolist())), "free dofs", "")
    class Pr(fe.Problem):
        def get_tensor_map(self): return lambda g: g
    pr = Pr(mesh=cm.mesh, vec=3, dim=3, ele_type="HEX8", location_fns=(cm.outer_surface_location_fn(), cm.inner_surface_location_fn(), cm.rim_location_fn()))
    from fx import H_CORNERS
    for n, (lst, I, K) in enumerate(zip(pr.boundary_inds_list, (range(nm), range(nm), [nm]), ((nl - 1,), (0,), (0, 1)))):
        faces = {frozenset(back[int(x)] for x in cells[c][np.asarray(pr.fes[0].face_inds)[f]]) for c, f in np.asarray(lst)} if hasattr(pr.fes[0], "face_inds") else None
        w = {frozenset([nid(i, j, K[0]), nid(i, j + 1, K[0]), nid(i + 1, j + 1, K[0]), nid(i + 1, j, K[0])]) for i in I for j in range(nc)} if n < 2 else {frozenset([nid(nm, j, 0), nid(nm, j + 1, 0), nid(nm, j + 1, 1), nid(nm, j, 1)]) for j in range(nc)}
        emit(f"{key}:face{n}", len(lst) == len(w) and (faces is None or faces == w), "surface selectors pick exactly their faces", f"{len(lst)} of {len(w)}")
    # winding
    lay = [("hoop", 1.) if x == 0 else ("helical", float(x)) for x in s["lay"]]; kw = {} if s["drop"] and rng.random() < .5 else dict(drop_dome_hoop=bool(s["drop"])); fib = np.asarray(cv.cell_fiber_directions(cm, lay, **kw)); fibA = np.asarray(cv.cell_fiber_directions(cm, lay, shell_only=False, **kw)); tm, thp, e3 = (np.asarray(z) for z in cv.cell_triads(cm)); ang = np.asarray(cv.cell_winding_angle_deg(cm))
    C = np.asarray(ls.orthotropic_stiffness_3d(9., 3., 2., 1.5, 1.2, .7, .2, .25, .3)); al = np.diag([-1., 4., 7.]); fC = np.asarray(ls.isotropic_stiffness_3d(2., .25)); fa = .5 * np.eye(3)
    CC, CA = np.asarray(cv.create_winding_ply_stiffness(cm, jnp.asarray(C), lay, fill_C=jnp.asarray(fC), **kw)), np.asarray(cv.create_winding_ply_stiffness(cm, jnp.asarray(C), lay, **kw)); TC, TA = np.asarray(cv.create_winding_cte(cm, jnp.asarray(al), lay, fill_alpha=jnp.asarray(fa), **kw)), np.asarray(cv.create_winding_cte(cm, jnp.asarray(al), lay, **kw)); wst = dict.fromkeys("triad angle fibre all stiff cte".split(), 0.)
    hit = lambda k, x: wst.__setitem__(k, max(wst[k], float(np.abs(x).max())))
    for c, w in enumerate(W):
        x = P[cells[c]]; cen = x.mean(0); rr = math.hypot(cen[0], cen[1]); er = np.array([cen[0], cen[1], 0]) / rr; eh = np.array([-er[1], er[0], 0]); n3 = x[4:].mean(0) - x[:4].mean(0); n3 /= np.linalg.norm(n3); em = np.cross(eh, n3)
        hit("triad", np.concatenate([thp[c] - eh, e3[c] - n3, tm[c] - em])); sa = min(1., rp / rr); hit("angle", (math.sin(math.radians(ang[c])) - sa))
        for p, cl in enumerate(r["dome"] if w["d"] else r["cyl"]):
            f1 = eh if cl == 0 else math.sqrt(1 - sa * sa) * em + cl * sa * eh; fill = w["z"] == 1; hit("all", fibA[c, p] - f1); hit("fibre", fib[c, p] - (0 if fill else f1)); R = np.stack([f1, np.cross(n3, f1), n3], 1)
            Cr, ar = np.einsum("ip,jq,kr,ls,pqrs->ijkl", R, R, R, R, C), R @ al @ R.T; hit("stiff", CA[c, p] - Cr); hit("stiff", CC[c, p] - (fC if fill else Cr)); hit("cte", TA[c, p] - ar); hit("cte", TC[c, p] - (fa if fill else ar))
    for k, tag in (("triad", "wall triads"), ("angle", "winding angle obeys Clairaut"), ("fibre", "fibre directions on the shells only"), ("all", "fibre directions"), ("stiff", "stiffness follows the winding"), ("cte", "expansion follows the winding")): emit(f"{key}:{k}", wst[k] < 1e-6 if k == "angle" else wst[k] < 1e-9 * 10, tag, f"off by {wst[k]:.2e}")
