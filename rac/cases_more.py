"""C17, C18: solvers"""
from common import *  # noqa: F401,F403
from common import np, MPI
from cases_op import bdiag


def gen_solver(rng, cgls):
    P = rng.randint(1, 4)
    ten = rng.random() < .15
    d = dict(P=P, n=[rng.randint(1, 3) for _ in range(P)], extra=[rng.randint(0, 2) for _ in range(P)], niter=rng.choice([0, 1, 2, 3, 4]), tol=rng.choice([1e-4, 0, 1e-10, .5, 5., 100.]),
                cplx=rng.random() < .5, x0=rng.choice(["zero", "rand", "rand"]), damp=rng.choice([0., 0., .5, 2.]) if cgls else 0., show=rng.random() < .3,
                stacked=rng.random() < .25, api=rng.choice(["func", "class", "steps"]), seed=rng.randrange(10 ** 6), sched=rng.randrange(10 ** 6))
    if ten:         # the default iteration limit
        d.update(niter=10, tol=1e-4, api=rng.choice(["func", "class"]), n=[rng.randint(8, 16) for _ in range(P)])
    if not ten and rng.random() < .15:         # operators with tiny or huge entries
        d.update(scale=2. ** rng.choice([-60, -30, 30]), tol=0)
    return d


def ref_cg(A, y, x0, niter, tol):
    x = x0.copy()
    r = y - A @ x
    c = r.copy()
    k = abs(np.vdot(r, r))
    cost, its, xs = [np.sqrt(k)], 0, []
    while its < niter and k > tol:
        q = A @ c
        a = k / abs(np.vdot(q, c))
        x = x + a * c
        r = r - a * q
        kn = abs(np.vdot(r, r))
        c = r + kn / k * c
        k = kn
        its += 1
        cost.append(np.sqrt(k))
        xs.append(x.copy())
    return x, its, cost, xs


def ref_cgls(A, y, x0, niter, tol, damp):
    d2 = damp ** 2
    x = x0.copy()
    s = y - A @ x
    r = A.conj().T @ s - d2 * x
    c = r.copy()
    q = A @ c
    k = abs(np.vdot(r, r))
    cost, its, xs = [np.linalg.norm(s)], 0, []
    while its < niter and k > tol:
        a = k / abs(np.vdot(q, q) + d2 * np.vdot(c, c))
        x = x + a * c
        s = s - a * q
        r = A.conj().T @ s - d2 * x
        kn = abs(np.vdot(r, r))
        c = r + kn / k * c
        q = A @ c
        k = kn
        its += 1
        cost.append(np.linalg.norm(s))
        xs.append(x.copy())
    r2 = np.sqrt(np.linalg.norm(s) ** 2 + d2 * abs(np.vdot(x, x)))
    return x, its, cost, xs, np.linalg.norm(s), r2, k


def run_solver(cfg, cgls):
    P, n = cfg["P"], cfg["n"]
    scale = cfg.get("scale", 1.)
    cfg = dict(cfg, damp=cfg["damp"] * scale)
    As = []
    rng = np.random.default_rng(cfg["seed"])
    for k in range(P):
        m = n[k] + (cfg["extra"][k] if cgls else 0)
        a = rng.standard_normal((m, n[k])) + (1j * rng.standard_normal((m, n[k])) if cfg["cplx"] else 0)
        if not cgls:
            a = a.conj().T @ a + np.eye(n[k])
        As.append(scale * a)
    D = bdiag(As)
    dt = complex if cfg["cplx"] else float
    y = rng.standard_normal(D.shape[0]) + (1j * rng.standard_normal(D.shape[0]) if cfg["cplx"] else 0)
    x0 = np.zeros(D.shape[1], dt) if cfg["x0"] == "zero" else rng.standard_normal(D.shape[1]) + (1j * rng.standard_normal(D.shape[1]) if cfg["cplx"] else 0)
    if cfg["stacked"]:
        DD = np.zeros((2 * D.shape[0], 2 * D.shape[1]), dt)
        DD[:D.shape[0], :D.shape[1]] = D
        DD[D.shape[0]:, D.shape[1]:] = 2 * D
        yy, xx0 = np.concatenate([y, 2 * y]), np.concatenate([x0, -x0])
    else:
        DD, yy, xx0 = D, y, x0
    ref = ref_cgls(DD, yy, xx0, cfg["niter"], cfg["tol"], cfg["damp"]) if cgls else ref_cg(DD, yy, xx0, cfg["niter"], cfg["tol"])
    # rounding may flip the stopping decision: skip such inputs
    rt = 1e-6 if cfg["niter"] < 10 else 1e-3
    ks = [c ** 2 for c in ref[2]]
    if not cgls and any(abs(k - cfg["tol"]) < (1e-7 * (1 + cfg["tol"]) if cfg["niter"] < 10 else cfg["tol"] / 20) for k in ks):
        return
    if len(ref[2]) > 1 and min(ref[2]) < 1e-6 * max(ref[2]) and cfg["tol"] < 1e-3:
        return
    if cgls:
        # gradient norms near the tolerance
        g = DD.conj().T @ (yy - DD @ ref[0]) - cfg["damp"] ** 2 * ref[0]
        kk = abs(np.vdot(g, g)) / scale ** 2
        if kk < 1e-10 or abs(kk - cfg["tol"]) < (1e-6 * (1 + cfg["tol"]) if cfg["niter"] < 10 else cfg["tol"] / 20):
            return

    def mkv(v, parts, scale=None):
        if not cfg["stacked"]:
            return scatter(v, parts=parts)
        h = len(v) // 2
        return StackedDistributedArray([scatter(v[:h], parts=parts), scatter(v[h:], parts=parts)])

    def flat(v):
        return np.concatenate([gather(d) for d in v.distarrays]) if isinstance(v, StackedDistributedArray) else gather(v)

    def f():
        k = rank()
        B = MPIBlockDiag([pylops.MatrixMult(As[k], dtype=dt)])
        O = B if not cfg["stacked"] else MPIStackedBlockDiag([B, MPIBlockDiag([pylops.MatrixMult(2 * As[k], dtype=dt)])])
        Y, X0 = mkv(yy, [a.shape[0] for a in As]), mkv(xx0, n)
        it = []

        def cb(x):
            it.append(flat(x).copy())
        if cfg["api"] == "func":
            if cgls:
                x, istop, iiter, r1, r2, cost = pylops_mpi.cgls(O, Y, X0, **opt(cfg, niter=(cfg["niter"], 10), damp=(cfg["damp"], 0.0), tol=(cfg["tol"], 1e-4), show=(cfg["show"], False)), callback=cb)
            else:
                x, iiter, cost = pylops_mpi.cg(O, Y, X0, **opt(cfg, niter=(cfg["niter"], 10), tol=(cfg["tol"], 1e-4), show=(cfg["show"], False)), callback=cb)
        else:
            from pylops_mpi.optimization.cls_basic import CG, CGLS
            S = (CGLS if cgls else CG)(O)
            S.callback = cb
            kw = opt(cfg, damp=(cfg["damp"], 0.0)) if cgls else {}
            if cfg["api"] == "class":
                r = S.solve(Y, X0, **opt(cfg, niter=(cfg["niter"], 10), tol=(cfg["tol"], 1e-4), show=(cfg["show"], False)), **kw)
                if cgls:
                    x, istop, iiter, r1, r2, cost = r
                else:
                    x, iiter, cost = r
            else:
                x = S.setup(Y, X0, niter=cfg["niter"], **opt(cfg, tol=(cfg["tol"], 1e-4)), **kw)
                if cgls:
                    close(flat(S.s), yy - DD @ flat(x), "residual held after setup")
                else:
                    close(flat(S.r), yy - DD @ flat(x), "residual held after setup")
                x = S.run(x)
                close(flat(S.s if cgls else S.r), yy - DD @ flat(x), "residual held by the solver", rtol=rt)
                S.finalize()
                iiter, cost = S.iiter, S.cost
                if cgls:
                    r1, r2 = S.r1norm, S.r2norm
        need(iiter == ref[1], f"{iiter} iterations instead of {ref[1]}")
        close(flat(x), ref[0], "solution", rtol=rt)
        close(np.asarray(cost), np.asarray(ref[2]), "cost history", rtol=rt)
        need(len(it) == ref[1], f"callback called {len(it)} times instead of {ref[1]}")
        for j, (a, b) in enumerate(zip(it, ref[3])):
            close(a, b, f"iterate {j}", rtol=rt)
        if cgls:
            close(r1, ref[4], "r1norm", rtol=rt)
            close(r2, ref[5], "r2norm", rtol=rt)
        close(flat(Y), yy, "data changed")
        close(flat(X0), xx0, "guess changed")
        return True
    checked(P, f, cfg["sched"], "cgls" if cgls else "cg")


def gen_C17(rng):
    return gen_solver(rng, False)


def run_C17(cfg):
    run_solver(cfg, False)


def gen_C18(rng):
    return gen_solver(rng, True)


def run_C18(cfg):
    run_solver(cfg, True)
