"""C08-C16, C19, C20: operators"""
from common import *  # noqa: F401,F403
from common import np, MPI, sys
from cases_array import make_op, build_expr
from pylops_mpi.signalprocessing import MPIFredholm1
from pylops_mpi.waveeqprocessing import MPIMDC
from pylops_mpi.utils.dottest import dottest


# ------------------------------------------------------------------ global stencils (documented formulas)
def first_matrix(n, h, kind, edge, order):
    D = np.zeros((n, n))
    if kind == "forward":
        for i in range(n - 1):
            D[i, i + 1], D[i, i] = 1, -1
    elif kind == "backward":
        for i in range(1, n):
            D[i, i], D[i, i - 1] = 1, -1
    elif order == 3:
        for i in range(1, n - 1):
            D[i, i + 1], D[i, i - 1] = 0.5, -0.5
        if edge:
            D[0, 1] += 1
            D[0, 0] -= 1
            D[n - 1, n - 1] += 1
            D[n - 1, n - 2] -= 1
    else:
        for i in range(2, n - 2):
            D[i, i - 2], D[i, i - 1], D[i, i + 1], D[i, i + 2] = 1 / 12, -2 / 3, 2 / 3, -1 / 12
        if edge:
            D[0, 1] += 1
            D[0, 0] -= 1
            D[1, 2] += .5
            D[1, 0] -= .5
            D[n - 1, n - 1] += 1
            D[n - 1, n - 2] -= 1
            D[n - 2, n - 1] += .5
            D[n - 2, n - 3] -= .5
    return D / h


def second_matrix(n, h, kind, edge):
    D = np.zeros((n, n))
    st = [(0, 1), (1, -2), (2, 1)]
    off = {"forward": 0, "backward": -2, "centered": -1}[kind]
    for i in range(n):
        if 0 <= i + off and i + off + 2 < n:
            for d, c in st:
                D[i, i + off + d] += c
    if kind == "centered" and edge:
        D[0, :3] = [1, -2, 1]
        D[n - 1, n - 3:] = [1, -2, 1]
    return D / h ** 2


# smallest number of rows each process must own for the stencil (forward / adjoint)
MINROWS = {("forward", 3): (1, 1), ("backward", 3): (1, 1), ("centered", 3): (1, 2), ("centered", 5): (2, 4)}


def minrows_first(kind, order, edge):
    return {"forward": 1, "backward": 1}.get(kind) or (4 if order == 5 else 2)


def minrows_second(kind, edge):
    return 2 if not (edge and kind == "centered") else 3


def vec_split(rng, rows, inner, P, minr):
    """distribution of the flattened vector: natural, shifted or arbitrary"""
    t = rng.random()
    nat = [r * inner for r in split(rows, P)]
    if t < 0.4:
        return None
    if t < 0.8:
        v = list(nat)
        for k in range(P - 1):
            d = rng.randint(-2, 2)
            if v[k] + d >= 0 and v[k + 1] - d >= 0:
                v[k] += d
                v[k + 1] -= d
        return v
    return rand_split(rng, rows * inner, P, 0)


def gen_deriv(rng, second):
    P = rng.randint(1, 5)
    kind = rng.choice(["forward", "backward", "centered", "centered"])
    order = rng.choice([3, 5]) if not second else 3
    edge = rng.random() < 0.5
    mr = minrows_second(kind, edge) if second else minrows_first(kind, order, edge)
    mr = max(mr, 3 if second else mr)
    short = rng.random() < 0.4       # shares may be too small for the stencil: an error, or the right result
    if short:
        mr = 1
    nd = rng.choice([1, 1, 2, 3])
    dims = [P * mr + rng.randint(0, 2 * P if short else 4)] + [rng.randint(1, 3) for _ in range(nd - 1)]
    dims[0] = max(dims[0], {("centered", 5): 5, ("forward", 3): 2, ("backward", 3): 2}.get((kind, order), 3) if not second else 3)
    if P == 1:
        dims[0] = max(dims[0], 5)
    inner = int(np.prod(dims[1:]))
    return dict(P=P, dims=dims, kind=kind, order=order, edge=edge, h=rng.choice([1.0, 0.5, 2.0, 0.3, 0.05, 3.5, 12.0, 100.0]), short=short, cplx=rng.random() < .3,
                vs=vec_split(rng, dims[0], inner, P, mr), part=rng.choice(["S", "S", "S", "B"]), seed=rng.randrange(10 ** 6), sched=rng.randrange(10 ** 6),
                adj=rng.random() < 0.5)


def run_linear(cfg, mk, D, may_raise=False, what="operator"):
    """forward/adjoint of a distributed operator against the dense matrix D"""
    P = cfg["P"]
    M, N = D.shape
    adj = cfg["adj"]
    u = data(cfg["seed"], (M if adj else N,), cfg["cplx"])
    exp = (D.conj().T if adj else D) @ u

    def f():
        O = mk()
        need(tuple(int(s) for s in O.shape) == (M, N), f"{what}: shape {O.shape} instead of {(M, N)}")
        part = cfg.get("part", "S")
        x = scatter(u, parts=cfg.get("vs") if part == "S" else None, part=part)
        y = O.rmatvec(x) if adj else O.matvec(x)
        return np.array(y.local_array), y.partition.name, tuple(y.global_shape), tuple(y.local_shape)
    w = spmd(P, f, cfg["sched"])
    if may_raise and any_raised(w):
        for o in w.outcome:
            if o[0] == "raise" and o[1] in ("Violation",):
                raise Violation(o[2])
        return None
    for k, o in enumerate(w.outcome):
        if o[0] == "raise" and o[1] == "Violation":
            raise Violation(o[2])
    vals = values(w, what)
    if vals[0][1] == "SCATTER":
        got = np.concatenate([v[0] for v in vals])
    else:
        for v in vals:
            close(v[0], vals[0][0], f"{what}: replicas differ")
        got = vals[0][0]
    close(got, exp, f"{what} ({'adjoint' if adj else 'forward'})")
    for v in vals:
        need(v[2] == (len(exp),), f"{what}: global shape {v[2]} of the result")
    return vals


def gen_C09(rng):
    return gen_deriv(rng, False)


def kron(D, dims):
    return np.kron(D, np.eye(int(np.prod(dims[1:]))))


def beyond(have, want):
    """does re-aligning the split ``have`` to the split ``want`` need values no adjacent process owns?"""
    if have is None:
        return False
    ch, cw = np.cumsum(have), np.cumsum(want)
    for k in range(len(have) - 1):
        d = int(cw[k] - ch[k])
        if -d > have[k] or d > have[k + 1]:
            return True
    return False


def shares_ok(cfg):
    """shares large enough for the stencil and a split that adjacent processes can re-align: an error is then not allowed"""
    if cfg.get("short"):
        return False
    inner = int(np.prod(cfg["dims"][1:]))
    want = [r * inner for r in split(cfg["dims"][0], cfg["P"])]
    have = cfg.get("vs") if cfg.get("part", "S") == "S" else None
    return not beyond(have or split(int(np.prod(cfg["dims"])), cfg["P"]), want)


def run_C09(cfg):
    dims = cfg["dims"]
    D = kron(first_matrix(dims[0], cfg["h"], cfg["kind"], cfg["edge"], cfg["order"]), dims)
    run_linear(cfg, lambda: MPIFirstDerivative(tuple(dims), **opt(cfg, sampling=(cfg["h"], 1.0), kind=(cfg["kind"], "centered"), edge=(cfg["edge"], False), order=(cfg["order"], 3)),
                                               dtype=complex if cfg["cplx"] else float), D, not shares_ok(cfg), "first derivative")


def gen_C10(rng):
    return gen_deriv(rng, True)


def run_C10(cfg):
    dims = cfg["dims"]
    D = kron(second_matrix(dims[0], cfg["h"], cfg["kind"], cfg["edge"]), dims)
    run_linear(cfg, lambda: MPISecondDerivative(tuple(dims), **opt(cfg, sampling=(cfg["h"], 1.0), kind=(cfg["kind"], "centered"), edge=(cfg["edge"], False)),
                                                dtype=complex if cfg["cplx"] else float), D, not shares_ok(cfg), "second derivative")


# ------------------------------------------------------------------ C08
def gen_C08(rng):
    op = rng.choice(["first", "second", "block", "block", "vstack", "hstack"])
    c = gen_deriv(rng, op == "second")
    c["op"] = op
    P = c["P"]
    if c["op"] in ("block", "vstack", "hstack"):
        c["m"] = [rng.randint(1, 4) for _ in range(P)]
        c["n"] = [rng.randint(1, 4) for _ in range(P)]
        c["adj"] = {"vstack": True, "hstack": False}.get(c["op"], c["adj"])
        src = c["n"] if (c["adj"] or c["op"] == "vstack") else c["m"]
        v = list(src)
        for k in range(P - 1):
            d = rng.randint(-2, 2)
            if v[k] + d >= 0 and v[k + 1] - d >= 0:
                v[k] += d
                v[k + 1] -= d
        c["vs"] = v if rng.random() < 0.6 else rand_split(rng, sum(src), P, 0)
    else:
        inner = int(np.prod(c["dims"][1:]))
        nat = [r * inner for r in split(c["dims"][0], P)]
        v = list(nat)
        for k in range(P - 1):
            d = rng.randint(-3, 3)
            if v[k] + d >= 0 and v[k + 1] - d >= 0:
                v[k] += d
                v[k + 1] -= d
        c["vs"] = v if rng.random() < 0.6 else rand_split(rng, sum(nat), P, 0)
    c["part"] = "S"
    return c


def dense_blocks(cfg, rows, cols):
    return [data(cfg["seed"] + 100 + k, (rows[k], cols[k]), cfg["cplx"]) for k in range(cfg["P"])]


def bdiag(Bs):
    R, C = sum(b.shape[0] for b in Bs), sum(b.shape[1] for b in Bs)
    A = np.zeros((R, C), dtype=np.result_type(*Bs))
    i = j = 0
    for b in Bs:
        A[i:i + b.shape[0], j:j + b.shape[1]] = b
        i += b.shape[0]
        j += b.shape[1]
    return A


def run_C08(cfg):
    dims = cfg["dims"]
    dt = complex if cfg["cplx"] else float
    if cfg["op"] == "first":
        D = kron(first_matrix(dims[0], cfg["h"], cfg["kind"], cfg["edge"], cfg["order"]), dims)
        mk = lambda: MPIFirstDerivative(tuple(dims), **opt(cfg, sampling=(cfg["h"], 1.0), kind=(cfg["kind"], "centered"), edge=(cfg["edge"], False), order=(cfg["order"], 3)), dtype=dt)  # noqa: E731
    elif cfg["op"] == "second":
        D = kron(second_matrix(dims[0], cfg["h"], cfg["kind"], cfg["edge"]), dims)
        mk = lambda: MPISecondDerivative(tuple(dims), **opt(cfg, sampling=(cfg["h"], 1.0), kind=(cfg["kind"], "centered"), edge=(cfg["edge"], False)), dtype=dt)  # noqa: E731
    elif cfg["op"] == "block":
        Bs = dense_blocks(cfg, cfg["n"], cfg["m"])
        D = bdiag(Bs)
        mk = lambda: MPIBlockDiag([pylops.MatrixMult(Bs[rank()], dtype=dt)])  # noqa: E731
    elif cfg["op"] == "vstack":
        Bs = dense_blocks(cfg, cfg["n"], [3] * cfg["P"])
        D = np.vstack(Bs)
        mk = lambda: MPIVStack([pylops.MatrixMult(Bs[rank()], dtype=dt)])  # noqa: E731
    else:
        Bs = dense_blocks(cfg, [3] * cfg["P"], cfg["m"])
        D = np.hstack(Bs)
        mk = lambda: MPIHStack([pylops.MatrixMult(Bs[rank()], dtype=dt)])  # noqa: E731
    if cfg["op"] in ("first", "second"):
        may = not shares_ok(cfg)
    else:
        want = cfg["n"] if (cfg["adj"] or cfg["op"] == "vstack") else cfg["m"]
        may = beyond(cfg["vs"], want)
    run_linear(cfg, mk, D, may, cfg["op"])


# ------------------------------------------------------------------ C11
def gen_C11(rng):
    P = rng.randint(1, 4)
    nd = rng.choice([2, 2, 3])
    kind = rng.choice(["centered", "centered", "forward", "backward"])
    dims = [3 * P + rng.randint(0, 3)] + [rng.randint(3, 5) for _ in range(nd - 1)]
    what = rng.choice(["lap", "lap", "grad"])
    na = rng.randint(1, nd)
    axes = rng.sample(range(nd), na)
    if rng.random() < .5:
        axes = [a - nd if rng.random() < .5 else a for a in axes]
    return dict(P=P, dims=dims, what=what, kind=kind, edge=rng.random() < .5, axes=axes, weights=[rng.choice([1, 2, -1.5, .5]) for _ in axes],
                sampling=[rng.choice([1., .5, 2.]) for _ in (axes if what == "lap" else dims)], cplx=rng.random() < .4,
                seed=rng.randrange(10 ** 6), sched=rng.randrange(10 ** 6), adj=rng.random() < .5)


def run_C11(cfg):
    dims = tuple(cfg["dims"])
    dt = complex if cfg["cplx"] else float
    P = cfg["P"]
    if cfg["what"] == "lap":
        if len(dims) < 2:
            return
        L = pylops.Laplacian(dims, axes=tuple(cfg["axes"]), weights=tuple(cfg["weights"]), sampling=tuple(cfg["sampling"]), edge=cfg["edge"], kind=cfg["kind"])
        D = L @ np.eye(int(np.prod(dims)))
        run_linear(cfg, lambda: MPILaplacian(dims, **opt(cfg, axes=(tuple(cfg["axes"]), (-2, -1)), weights=(tuple(cfg["weights"]), (1, 1)),
                                                     sampling=(tuple(cfg["sampling"]), (1., 1.)), edge=(cfg["edge"], False), kind=(cfg["kind"], "centered")), dtype=dt), D, False, "Laplacian")
        return
    N = int(np.prod(dims))
    comps = []
    for ax in range(len(dims)):
        D1 = first_matrix(dims[ax], cfg["sampling"][ax], cfg["kind"], cfg["edge"], 3)
        m = np.eye(1)
        for d in range(len(dims)):
            m = np.kron(m, D1 if d == ax else np.eye(dims[d]))
        comps.append(m)
    samp = tuple(cfg["sampling"])

    def f():
        G = MPIGradient(dims, **opt(cfg, sampling=(samp, (1.,) * len(dims)), edge=(cfg["edge"], False), kind=(cfg["kind"], "centered")), dtype=dt)
        need(tuple(int(s) for s in G.shape) == (len(dims) * N, N), f"gradient shape {G.shape}")
        if not cfg["adj"]:
            x = data(cfg["seed"], (N,), cfg["cplx"])
            inner = int(np.prod(dims[1:]))
            y = G.matvec(scatter(x, parts=[r * inner for r in split(dims[0], P)]))
            need(y.narrays == len(dims), "number of gradient components")
            for ax in range(len(dims)):
                close(gather(y[ax]), comps[ax] @ x, f"gradient component {ax}")
        else:
            inner = int(np.prod(dims[1:]))
            us = [data(cfg["seed"] + a, (N,), cfg["cplx"]) for a in range(len(dims))]
            s = StackedDistributedArray([scatter(u, parts=[r * inner for r in split(dims[0], P)]) for u in us])
            close(gather(G.rmatvec(s)), sum(c.T @ u for c, u in zip(comps, us)), "gradient adjoint")
        return True
    checked(P, f, cfg["sched"], "gradient")


# ------------------------------------------------------------------ C12
def gen_C12(rng):
    P = rng.randint(1, 4)
    what = rng.choice(["block", "block", "vstack", "hstack"])
    nops = [rng.choice([1, 1, 2, 3, 4, 6]) for _ in range(P)]
    common = rng.randint(1, 4)
    rows = [[common if what == "hstack" else rng.randint(1, 4) for _ in range(n)] for n in nops]
    cols = [[common if what == "vstack" else rng.randint(1, 4) for _ in range(n)] for n in nops]
    return dict(P=P, what=what, rows=rows, cols=cols, cplx=rng.random() < .4, adj=rng.random() < .5, part=rng.choice(["B", "U"]),
                mask=[rng.randint(0, 1) for _ in range(P)] if rng.random() < .3 else None,
                seed=rng.randrange(10 ** 6), sched=rng.randrange(10 ** 6))


def run_C12(cfg):
    P, what = cfg["P"], cfg["what"]
    dt = complex if cfg["cplx"] else float
    Bs = [[data(cfg["seed"] + 100 * k + i, (r, c), cfg["cplx"]) for i, (r, c) in enumerate(zip(cfg["rows"][k], cfg["cols"][k]))] for k in range(P)]
    flat = [b for l in Bs for b in l]
    D = bdiag(flat) if what == "block" else (np.vstack(flat) if what == "vstack" else np.hstack(flat))
    cls = {"block": MPIBlockDiag, "vstack": MPIVStack, "hstack": MPIHStack}[what]
    kw = dict(mask=cfg["mask"]) if what == "block" and cfg["mask"] else {}
    mk = lambda: cls([pylops.MatrixMult(b, dtype=dt) for b in Bs[rank()]], **kw)  # noqa: E731
    c = dict(cfg)
    adj = cfg["adj"]
    rep_in = (what == "vstack" and not adj) or (what == "hstack" and adj)
    c["part"] = cfg["part"] if rep_in else "S"
    src = [sum(x) for x in (cfg["rows"] if adj else cfg["cols"])]
    dst = [sum(x) for x in (cfg["cols"] if adj else cfg["rows"])]
    c["vs"] = None if rep_in else src
    v = run_linear(c, mk, D, False, what)
    rep_out = (what == "vstack" and adj) or (what == "hstack" and not adj)
    for k, (a, p, g, l) in enumerate(v):
        need((p == "SCATTER") != rep_out, f"{what}: partition of the result {p}")
        need(tuple(int(n) for n in l) == ((int(g[0]),) if rep_out else (dst[k],)), f"{what}: local shape {l} of rank {k} is not the block row")


# ------------------------------------------------------------------ C13
def gen_C13(rng):
    P = rng.randint(1, 4)

    def tree(d):
        if d == 0:
            return rng.choice(["A", "B", "A"])
        t = rng.choice(["H", "T", "C", "+", "-", "*", "s", "n", "p", "rs"])
        if t in "+-*":
            return [t, tree(d - 1), tree(rng.randint(0, d - 1))]
        if t in ("s", "rs"):
            return [t, rng.choice([2, -0.5, 3.0, "1+2j"]), tree(d - 1)]
        if t == "p":
            return [t, rng.choice([0, 1, 2, 3, 3, 4]), tree(d - 1)]
        return [t, tree(d - 1)]
    cplx = rng.random() < .6
    return dict(P=P, n=[rng.randint(1, 3) for _ in range(P)], tree=tree(rng.randint(1, 3)), base=rng.choice(["block", "lin"]), cplx=cplx, adj=rng.random() < .5,
                rect=rng.random() < .3, rows=[rng.randint(1, 3) for _ in range(P)],
                seed=rng.randrange(10 ** 6), sched=rng.randrange(10 ** 6))


def ev(t, env, mat):
    if isinstance(t, str):
        return env[t]
    h = t[0]
    if h in ("s", "rs"):
        s = complex(t[1]) if isinstance(t[1], str) else t[1]
        a = ev(t[2], env, mat)
        return s * a if h == "s" or mat else a * s
    if h == "p":
        a = ev(t[2], env, mat)
        return np.linalg.matrix_power(a, t[1]) if mat else a ** t[1]
    if h in "+-*":
        a, b = ev(t[1], env, mat), ev(t[2], env, mat)
        if h == "+":
            return a + b
        if h == "-":
            return a - b
        return a @ b if mat else a * b
    a = ev(t[1], env, mat)
    if h == "H":
        return a.conj().T if mat else a.H
    if h == "T":
        return a.T
    if h == "C":
        return a.conj()
    return -a


def has_cscalar(t):
    return (not isinstance(t, str)) and ((t[0] in ("s", "rs") and isinstance(t[1], str)) or any(has_cscalar(c) for c in t[1:] if isinstance(c, list)))


def run_C13(cfg):
    P = cfg["P"]
    cplx = cfg["cplx"] or has_cscalar(cfg["tree"])
    dt = complex if cplx else float
    if cfg["base"] == "block":
        A = [data(cfg["seed"] + k, (n, n), cplx, -2, 3) for k, n in enumerate(cfg["n"])]
        B = [data(cfg["seed"] + 50 + k, (n, n), cplx, -2, 3) for k, n in enumerate(cfg["n"])]
        env = lambda: {"A": MPIBlockDiag([pylops.MatrixMult(A[rank()], dtype=dt)]), "B": MPIBlockDiag([pylops.MatrixMult(B[rank()], dtype=dt)])}  # noqa: E731
        DA, DB = bdiag(A), bdiag(B)
        part, vs = "S", cfg["n"]
    else:
        DA, DB = data(cfg["seed"], (3, 3), cplx, -2, 3), data(cfg["seed"] + 1, (3, 3), cplx, -2, 3)
        env = lambda: {"A": MPILinearOperator(pylops.MatrixMult(DA, dtype=dt)), "B": pylops_mpi.asmpilinearoperator(pylops.MatrixMult(DB, dtype=dt))}  # noqa: E731
        part, vs = "B", None
    D = ev(cfg["tree"], {"A": DA, "B": DB}, True).astype(dt)
    c = dict(cfg, part=part, vs=vs, cplx=cplx)
    run_linear(c, lambda: ev(cfg["tree"], env(), False), D, False, f"expression {cfg['tree']}")
    # shapes that do not fit are rejected
    if cfg["rect"] and cfg["base"] == "block" and sum(cfg["rows"]) != sum(cfg["n"]):
        Rr = lambda: MPIBlockDiag([pylops.MatrixMult(np.ones((cfg["rows"][rank()], cfg["n"][rank()]), dtype=dt), dtype=dt)])  # noqa: E731
        for nm, mk in [(f"non-square power {p}", lambda p=p: Rr() ** p) for p in range(4)] + [
                ("negative power", lambda: env()["A"] ** -1), ("product", lambda: Rr() * Rr()), ("sum", lambda: Rr() + env()["A"]), ("difference", lambda: env()["A"] - Rr())]:
            w = spmd(P, mk, cfg["sched"])
            need(all(o[0] == "raise" for o in w.outcome), f"{nm} of operators that do not fit is accepted")
    # rectangular products and their shapes
    if cfg["rect"] and cfg["base"] == "block":
        R = [data(cfg["seed"] + 9 + k, (r, n), cplx, -2, 3) for k, (r, n) in enumerate(zip(cfg["rows"], cfg["n"]))]
        DR = bdiag(R)
        mkR = lambda: MPIBlockDiag([pylops.MatrixMult(R[rank()], dtype=dt)])  # noqa: E731
        for nm, mk, M, ins, outs in (
                ("R*A", lambda: mkR() * env()["A"], DR @ DA, cfg["n"], cfg["rows"]),
                ("(R*A).H", lambda: (mkR() * env()["A"]).H, (DR @ DA).conj().T, cfg["rows"], cfg["n"]),
                ("R.T", lambda: mkR().T, DR.T, cfg["rows"], cfg["n"]),
                ("(2R).H", lambda: (2 * mkR()).H, 2 * DR.conj().T, cfg["rows"], cfg["n"]),
                ("R.conj()", lambda: mkR().conj(), DR.conj(), cfg["n"], cfg["rows"]),
                ("R+R", lambda: (mkR() + mkR()).H, 2 * DR.conj().T, cfg["rows"], cfg["n"]),
                ("R.H*R", lambda: (mkR().H * mkR()) ** 2, np.linalg.matrix_power(DR.conj().T @ DR, 2), cfg["n"], cfg["n"])):
            run_linear(dict(c, vs=outs if cfg["adj"] else ins), mk, M, False, nm)


# ------------------------------------------------------------------ C14
def gen_C14(rng):
    P = rng.randint(1, 4)
    k = rng.randint(1, 3)
    return dict(P=P, k=k, sizes=[rng.randint(P, P + 5) for _ in range(k)], parts=[rng.choice("SSBU") for _ in range(k)], cplx=rng.random() < .5,
                what=rng.choice(["array", "array", "op", "op", "expr", "expr"]), stack=rng.choice(["v", "d"]), ord=rng.choice([None, 0, 1, 2, 3, "inf", "-inf"]),
                expr=rng.choice(["A", "AH", "AT", "conj", "sA", "A+B", "AB", "neg", "sub", "ABH", "cs", "pow2", "pow0", "AHA", "mixVD"]),
                n=[rng.randint(1, 3) for _ in range(P)], rows=[[rng.randint(1, 3) for _ in range(P)] for _ in range(k)], adj=rng.random() < .5,
                seed=rng.randrange(10 ** 6), sched=rng.randrange(10 ** 6), nd=rng.choice([1, 1, 2]))


def run_C14(cfg):
    P, K = cfg["P"], cfg["k"]
    if cfg["what"] == "array":
        def mk(s):
            xs = [data(cfg["seed"] + s + 10 * i, (n,) if cfg["nd"] == 1 else (n, 2), cfg["cplx"]) for i, n in enumerate(cfg["sizes"])]
            return xs, StackedDistributedArray([scatter(x, part=p) for x, p in zip(xs, cfg["parts"])])

        def f():
            xs, a = mk(0)
            ys, b = mk(1)
            cat = lambda l: np.concatenate([np.asarray(x).ravel() for x in l])  # noqa: E731
            close(a.asarray(), cat(xs), "stacked gather")
            for nm, r, e in (("add", a + b, [x + y for x, y in zip(xs, ys)]), ("sub", a - b, [x - y for x, y in zip(xs, ys)]),
                             ("mul", a * b, [x * y for x, y in zip(xs, ys)]), ("scalar", a * 2.5, [2.5 * x for x in xs]), ("rscalar", -3 * a, [-3 * x for x in xs]),
                             ("neg", -a, [-x for x in xs]), ("conj", a.conj(), [x.conj() for x in xs]), ("copy", a.copy(), xs)):
                close(cat([gather(d) for d in r.distarrays]), cat(e), f"stacked {nm}")
                need(r.narrays == K, f"stacked {nm}: number of components")
            close(a.dot(b), np.dot(cat(xs), cat(ys)), "stacked dot")
            o = {"inf": np.inf, "-inf": -np.inf}.get(cfg["ord"], cfg["ord"])
            from cases_array import norm_ref
            close(np.asarray(a.norm(o)).reshape(()), norm_ref(cat(xs), cfg["ord"]), f"stacked norm {cfg['ord']}")
            c = a.copy()
            c += b
            close(cat([gather(d) for d in c.distarrays]), cat([x + y for x, y in zip(xs, ys)]), "stacked iadd")
            c -= b
            close(cat([gather(d) for d in c.distarrays]), cat(xs), "stacked isub")
            close(cat([gather(d) for d in a.distarrays]), cat(xs), "operand")
            c[0] = np.zeros_like(c[0].local_array) + 3
            close(c[0].local_array, np.zeros_like(c[0].local_array) + 3, "component assignment")
            return True
        checked(P, f, cfg["sched"], "stacked arrays")
        return
    dt = complex if cfg["cplx"] else float
    n, rows = cfg["n"], cfg["rows"]
    square = cfg["what"] == "expr" and cfg["expr"] not in ("A", "AH", "AT", "conj", "sA", "cs", "A+B", "sub", "neg")
    if square:
        rows = [n for _ in range(K)]
    A = [[data(cfg["seed"] + 100 * i + k, (rows[i][k], n[k]), cfg["cplx"], -2, 3) for k in range(P)] for i in range(K)]
    B = [[data(cfg["seed"] + 7000 + 100 * i + k, (rows[i][k], n[k]), cfg["cplx"], -2, 3) for k in range(P)] for i in range(K)]
    op = lambda M: MPIBlockDiag([pylops.MatrixMult(M[rank()], dtype=dt)])  # noqa: E731
    e = cfg["expr"]
    if cfg["what"] == "op":
        st = cfg["stack"]
        mk = (lambda: MPIStackedVStack([op(a) for a in A])) if st == "v" else (lambda: MPIStackedBlockDiag([op(a) for a in A]))
        D = np.vstack([bdiag(a) for a in A]) if st == "v" else bdiag([bdiag(a) for a in A])
    else:
        st = "d"
        SA, SB = (lambda: MPIStackedBlockDiag([op(a) for a in A])), (lambda: MPIStackedBlockDiag([op(b) for b in B]))
        DA, DB = bdiag([bdiag(a) for a in A]), bdiag([bdiag(b) for b in B])
        s = 1.5 - 2j if cfg["cplx"] else 1.5
        SV = lambda: MPIStackedVStack([op(a) for a in A])  # noqa: E731
        DV = np.vstack([bdiag(a) for a in A])
        mk, D = {"A": lambda: (SA, DA), "AH": lambda: (lambda: SA().H, DA.conj().T), "AT": lambda: (lambda: SA().T, DA.T), "conj": lambda: (lambda: SA().conj(), DA.conj()),
                 "sA": lambda: (lambda: s * SA(), s * DA), "cs": lambda: (lambda: (s * SA()).H, np.conj(s) * DA.conj().T), "A+B": lambda: (lambda: SA() + SB(), DA + DB), "AB": lambda: (lambda: SA() * SB(), DA @ DB),
                 "ABH": lambda: (lambda: (SA() * SB()).H, (DA @ DB).conj().T), "neg": lambda: (lambda: -SA(), -DA), "sub": lambda: (lambda: SA() + (-1 * SB()) if False else (SA() + SB()).H, (DA + DB).conj().T),
                 "pow2": lambda: (lambda: SA() ** 2, DA @ DA), "pow0": lambda: (lambda: SA() ** 0, np.eye(len(DA))), "AHA": lambda: (lambda: SV().H * SV(), DV.conj().T @ DV),
                 "mixVD": lambda: (lambda: SA() * SV(), DA @ DV)}[e]()
        if e == "AHA":
            st = "n"
        if e == "mixVD":
            st = "v"
    adj = cfg["adj"]

    def f():
        O = mk()
        need(tuple(int(q) for q in O.shape) == D.shape, f"stacked operator shape {O.shape} instead of {D.shape}")
        lens_c = [sum(n)] * K
        lens_r = [sum(r) for r in rows]
        stacked_in = (st == "d") or (st == "v" and adj)
        turned = cfg["what"] == "expr" and e in ("AH", "AT", "cs", "sub")
        lens = lens_r if adj != turned else lens_c
        if stacked_in:
            us = [data(cfg["seed"] + i, (L,), cfg["cplx"]) for i, L in enumerate(lens)]
            prt = [rows[i] if adj != turned else n for i in range(K)]
            x = StackedDistributedArray([scatter(u, parts=p) for u, p in zip(us, prt)])
            u = np.concatenate(us)
        else:
            u = data(cfg["seed"], (sum(n),), cfg["cplx"])
            x = scatter(u, parts=n)
        y = O.rmatvec(x) if adj else O.matvec(x)
        exp = (D.conj().T if adj else D) @ u
        got = np.concatenate([gather(d) for d in y.distarrays]) if isinstance(y, StackedDistributedArray) else gather(y)
        close(got, exp, f"stacked operator {cfg['what']} {e if cfg['what'] == 'expr' else cfg['stack']} adjoint={adj}")
        return True
    checked(P, f, cfg["sched"], "stacked operators")


# ------------------------------------------------------------------ C15
def gen_C15(rng):
    P = rng.randint(1, 4)
    return dict(P=P, nsl=[rng.randint(2, 4) for _ in range(P)], nx=rng.randint(2, 4), ny=rng.randint(2, 4), nz=rng.choice([1, 1, 2, 3]), cplx=rng.random() < .6,
                saveGt=rng.random() < .5, mm=rng.random() < .5, adj=rng.random() < .5, part=rng.choice("BU"), seed=rng.randrange(10 ** 6), sched=rng.randrange(10 ** 6))


def run_C15(cfg):
    nx, ny, nz = cfg["nx"], cfg["ny"], cfg["nz"]
    n = sum(cfg["nsl"])
    G = data(cfg["seed"] + 1, (n, nx, ny), cfg["cplx"])
    D = bdiag([np.kron(G[i], np.eye(nz)) for i in range(n)])
    mk = lambda: MPIFredholm1(block(G, 0, cfg["nsl"], rank()).copy(), **opt(cfg, nz=(nz, 1), saveGt=(cfg["saveGt"], False), usematmul=(cfg["mm"], True)), dtype=G.dtype)  # noqa: E731
    v = run_linear(dict(cfg, vs=None), mk, D, False, "Fredholm operator")
    for a, p, g, l in v:
        need(p != "SCATTER", "the result must be replicated")


# ------------------------------------------------------------------ C16
def gen_C16(rng):
    P = rng.randint(1, 3)
    two = rng.random() < .5
    nt = rng.choice([5, 7, 9]) if two or rng.random() < .5 else rng.choice([4, 6, 8])
    nf = max(2 * P, 2)
    nfft = int(np.ceil((nt + 1) / 2))
    return dict(P=P, nt=nt, nv=rng.choice([1, 1, 2]), ns=rng.randint(2, 3), nr=rng.randint(2, 3), two=two, conj=rng.random() < .4, pre=rng.random() < .4, saveGt=rng.random() < .5,
                mm=rng.random() < .5, dt=rng.choice([1., .5]), dr=rng.choice([1., 2.]), over=rng.choice([0, 0, 1, 3]), adj=rng.random() < .5, seed=rng.randrange(10 ** 6), sched=rng.randrange(10 ** 6),
                bad=rng.random() < .1, nfft=nfft)


def run_C16(cfg):
    P, nt, nv, ns, nr = cfg["P"], cfg["nt"], cfg["nv"], cfg["ns"], cfg["nr"]
    nfft = int(np.ceil((nt + 1) / 2))
    if nfft < 2 * P:
        P = max(1, nfft // 2)
    nf = nfft if cfg["over"] else max(2 * P, nfft - (cfg["seed"] % 2))
    nfreq = nf + cfg["over"] if nf == nfft else nf
    parts = split(nf, P)
    G = data(cfg["seed"], (nf, ns, nr), True)
    if cfg["bad"]:
        def h():
            try:
                MPIMDC(block(G, 0, parts, rank()), nt=nt + nt % 2, nv=nv, nfreq=nfreq, twosided=True)
            except ValueError:
                return True
            return False
        for v in values(spmd(P, h, cfg["sched"])):
            need(v, "an even number of samples was accepted for two-sided data")
        return
    N, M = nt * nr * nv, nt * ns * nv
    # dense chain
    F = pylops.signalprocessing.FFT(dims=(nt, nr, nv), axis=0, real=True, ifftshift_before=cfg["two"], dtype="float64")
    F1 = pylops.signalprocessing.FFT(dims=(nt, ns, nv), axis=0, real=True, ifftshift_before=False, dtype="float64")
    g = (1.0 if cfg["pre"] else cfg["dr"] * cfg["dt"] * np.sqrt(nt)) * G
    if cfg["conj"]:
        g = g.conj()
    rng = np.random.default_rng(cfg["seed"])
    u = rng.standard_normal(M if cfg["adj"] else N)

    def fwd(x):
        X = F.matvec(x.astype(complex)).reshape(nfft, nr * nv)[:nf].reshape(nf, nr, nv)
        Y = np.zeros((nfft, ns, nv), complex)
        Y[:nf] = np.matmul(g, X)
        return F1.rmatvec(Y.ravel())

    def adj(y):
        Y = F1.matvec(y.astype(complex)).reshape(nfft, ns, nv)[:nf]
        X = np.zeros((nfft, nr, nv), complex)
        X[:nf] = np.matmul(g.transpose(0, 2, 1).conj(), Y)
        return F.rmatvec(X.ravel())
    exp = np.real((adj if cfg["adj"] else fwd)(u))

    def f():
        O = MPIMDC(block(G, 0, parts, rank()).copy(), nt=nt, nv=nv, nfreq=nfreq, **opt(cfg, dt=(cfg["dt"], 1.), dr=(cfg["dr"], 1.), twosided=(cfg["two"], True), saveGt=(cfg["saveGt"], True),
                                                                                                  conj=(cfg["conj"], False), usematmul=(cfg["mm"], False), prescaled=(cfg["pre"], False)))
        need(tuple(int(s) for s in O.shape) == (M, N), f"shape {O.shape}")
        need(np.dtype(O.dtype) == np.dtype(float), f"element type {O.dtype}")
        x = scatter(u, part="B")
        y = (O.rmatvec if cfg["adj"] else O.matvec)(x)
        close(np.real(gather(y)), exp, "multi-dimensional convolution")
        close(np.imag(gather(y)), np.zeros(len(exp)), "imaginary part of the output")
        return True
    checked(P, f, cfg["sched"], "MDC")


# ------------------------------------------------------------------ C19
def gen_C19(rng):
    import cases_array as ca
    src = rng.choice(["C02", "C03", "C04", "C06", "C07", "C09", "C10", "C08", "C11", "C12", "C13", "C14", "C15", "C16", "solver", "dottest"])
    if src in ("C02", "C03", "C04", "C06", "C07"):
        c = getattr(ca, "gen_" + src)(rng)
    elif src in ("solver", "dottest"):
        c = dict(P=rng.randint(1, 4), cplx=rng.random() < .4, seed=rng.randrange(10 ** 6), sched=rng.randrange(10 ** 6), kind=rng.choice(["block", "deriv", "lin"]), show=rng.random() < .5)
    else:
        c = globals()["gen_" + src](rng)
    c["src"] = src
    return c


def run_C19(cfg):
    """same sequence of collectives on every communicator, everything received, whatever the schedule"""
    import cases_array as ca
    import common
    src = cfg["src"]
    seen = []
    orig = common.spmd

    def spy(P, fn, seed=0, args=()):
        w = orig(P, fn, seed, args)
        seen.append(w)
        return w
    mods = [common, ca, sys.modules[__name__]]
    import sys as _s
    for s in (0, 1, 2):
        cc = dict(cfg, sched=cfg["sched"] + s)
        for m in mods:
            m.spmd = spy
        try:
            if src == "solver":
                def f():
                    O, u, v = make_op("block" if cfg["kind"] == "deriv" else cfg["kind"], cfg["seed"], cfg["P"], cfg["cplx"])
                    pylops_mpi.cgls(O, v, u, niter=3, tol=0, damp=.1, show=cfg["show"])
                    pylops_mpi.cg(O.H * O, O.rmatvec(v), u, niter=3, tol=0, show=cfg["show"])
                spy(cfg["P"], f, cc["sched"])
            elif src == "dottest":
                def f():
                    O, u, v = make_op(cfg["kind"], cfg["seed"], cfg["P"], cfg["cplx"])
                    return bool(dottest(O, u, v, raiseerror=False, verb=cfg["show"]))
                spy(cfg["P"], f, cc["sched"])
            else:
                try:
                    (getattr(ca, "run_" + src, None) or globals()["run_" + src])(cc)
                except Violation:
                    pass      # values are judged by the other properties
        finally:
            for m in mods:
                m.spmd = orig
    for w in seen:
        if any_raised(w):
            continue
        need(w.mismatch is None, str(w.mismatch))
        need(all(o[0] == "ok" for o in w.outcome), f"deadlock: {describe(w)}")
        need(not w.problems, str(w.problems))
        seqs = {}
        for k in range(w.size):
            per = {}
            for cid, nm, det in w.trace[k]:
                if nm not in ("send", "recv", "isend", "Send", "Recv", "Isend"):
                    per.setdefault(cid, []).append((nm, det))
            for cid, l in per.items():
                seqs.setdefault(cid, {})[k] = l
        for cid, d in seqs.items():
            ls = list(d.values())
            mem = w.groups[cid].members if cid in w.groups else list(d)
            need(len(d) == len(mem) and all(l == ls[0] for l in ls), f"collective sequences differ on communicator {cid}: {d}")


# ------------------------------------------------------------------ C20
class BadAdj(pylops.LinearOperator):
    def __init__(self, A, E, dtype):
        super().__init__(dtype=np.dtype(dtype), shape=A.shape)
        self.A_, self.E_ = A, E

    def _matvec(self, x):
        return self.A_ @ x

    def _rmatvec(self, x):
        return (self.A_ + self.E_).conj().T @ x


def gen_C20(rng):
    P = rng.randint(1, 4)
    return dict(P=P, n=[rng.randint(1, 3) for _ in range(P)], m=[rng.randint(1, 3) for _ in range(P)], cplx=rng.random() < .5, eps=rng.choice([0, 0, 1e-9, 1e-7, 1e-5, 1e-3, .1, 1.]),
                rtol=rng.choice([1e-6, 1e-3, 1e-9, .5]), atol=rng.choice([1e-21, 1e-3, .1, 0]), raiseerror=rng.random() < .5, verb=rng.random() < .2,
                dims=rng.choice([None, None, "ok", "bad"]), which=rng.choice(["all", "one"]), seed=rng.randrange(10 ** 6), sched=rng.randrange(10 ** 6))


def run_C20(cfg):
    P = cfg["P"]
    A = [data(cfg["seed"] + k, (m, n), cfg["cplx"]) for k, (m, n) in enumerate(zip(cfg["m"], cfg["n"]))]
    E = [cfg["eps"] * data(cfg["seed"] + 40 + k, (m, n), cfg["cplx"]) * (1 if cfg["which"] == "all" or k == P - 1 else 0) for k, (m, n) in enumerate(zip(cfg["m"], cfg["n"]))]
    u, v = data(cfg["seed"] + 90, (sum(cfg["n"]),), cfg["cplx"]), data(cfg["seed"] + 91, (sum(cfg["m"]),), cfg["cplx"])
    DA, DE = bdiag(A), bdiag(E)
    yy = np.vdot(DA @ u, v)
    xx = np.vdot(u, (DA + DE).conj().T @ v)
    lhs, rhs = abs(xx - yy), cfg["atol"] + cfg["rtol"] * abs(yy)
    if abs(lhs - rhs) < 1e-9 * (1 + rhs) and not (cfg["eps"] == 0 and rhs > 1e-12):
        return      # too close to the threshold for floating point
    ok = lhs <= rhs
    dt = complex if cfg["cplx"] else float

    def f():
        k = rank()
        O = MPIBlockDiag([BadAdj(A[k], E[k], dt)])
        kw = {}
        if cfg["dims"] == "ok":
            kw = dict(nr=sum(cfg["m"]), nc=sum(cfg["n"]))
        if cfg["dims"] == "bad":
            kw = dict(nr=sum(cfg["m"]) + 1, nc=sum(cfg["n"]))
        try:
            r = dottest(O, scatter(u, parts=cfg["n"]), scatter(v, parts=cfg["m"]), **opt(cfg, rtol=(cfg["rtol"], 1e-6), atol=(cfg["atol"], 1e-21), raiseerror=(cfg["raiseerror"], True), verb=(cfg["verb"], False)), **kw)
        except AssertionError as e:
            return "raise"
        return bool(r)
    vals = values(spmd(P, f, cfg["sched"]), "adjoint test")
    for k, r in enumerate(vals):
        if cfg["dims"] == "bad":
            need(r == "raise", "inconsistent dimensions accepted")
        elif ok:
            need(r is True, f"rank {k}: rejected although |xx-yy|={lhs} <= {rhs} ({r})")
        else:
            need(r == ("raise" if cfg["raiseerror"] else False), f"rank {k}: verdict {r} although |xx-yy|={lhs} > {rhs}")
