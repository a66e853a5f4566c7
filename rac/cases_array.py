"""C01-C07, C21, C22: distributed arrays"""
from common import *  # noqa: F401,F403
from common import np, MPI


def pick_shape(rng, nd=None, lo=1, hi=9):
    nd = nd or rng.choice([1, 1, 2, 2, 3])
    return [rng.randint(lo, hi if nd == 1 else max(lo, min(hi, 6))) for _ in range(nd)]


def base_cfg(rng, lo=0, parts="SBU", Pmax=5, minshare=0):
    P = rng.randint(1, Pmax)
    shape = pick_shape(rng)
    axis = rng.randrange(len(shape))
    part = rng.choice(parts)
    if minshare:
        shape[axis] = max(shape[axis], minshare * P)
    ls = rand_split(rng, shape[axis], P, minshare) if rng.random() < 0.6 else None
    mask = [rng.randint(0, 2) for _ in range(P)] if rng.random() < 0.4 else None
    return dict(P=P, shape=shape, axis=axis, part=part, ls=ls, mask=mask, cplx=rng.random() < 0.4,
                seed=rng.randrange(10 ** 6), sched=rng.randrange(10 ** 6))


def make(cfg, s=0, comm=None, mask=True):
    x = data(cfg["seed"] + s, cfg["shape"], cfg["cplx"])
    return x, scatter(x, cfg["axis"], cfg["ls"] if cfg["part"] == "S" else None, cfg["mask"] if mask else None, comm, cfg["part"])


def local(cfg, g, k, P=None):
    if cfg["part"] != "S":
        return g
    parts = cfg["ls"] if cfg["ls"] is not None else split(cfg["shape"][cfg["axis"]], P or cfg["P"])
    return block(g, cfg["axis"], parts, k)


# ------------------------------------------------------------------ C01
def gen_C01(rng):
    c = base_cfg(rng)
    c["mode"] = rng.choice(["default", "default", "explicit", "bad", "scalar"])
    c["delta"] = rng.choice([-2, -1, 1, 2])
    c["who"] = rng.randrange(c["P"])
    return c


def run_C01(cfg):
    P, shape, axis = cfg["P"], tuple(cfg["shape"]), cfg["axis"]
    part = PARTS[cfg["part"]]
    if cfg["mode"] == "default":
        got = values(spmd(P, lambda: (DistributedArray(global_shape=shape, partition=part, axis=axis).local_shape,
                                      DistributedArray(global_shape=shape, partition=part, axis=axis).local_array.shape), cfg["sched"]))
        for k, (ls, las) in enumerate(got):
            exp = tuple(shape) if cfg["part"] != "S" else tuple(split(shape[axis], P)[k] if d == axis else n for d, n in enumerate(shape))
            need(tuple(ls) == exp and tuple(las) == exp, f"local shape of rank {k} is {ls} (storage {las}), expected {exp} for global {shape} over {P}")
    elif cfg["mode"] == "scalar":
        n = shape[0]
        got = values(spmd(P, lambda: DistributedArray(global_shape=n, partition=part).local_shape, cfg["sched"]))
        for k, ls in enumerate(got):
            exp = (n,) if cfg["part"] != "S" else (split(n, P)[k],)
            need(tuple(ls) == exp, f"local shape {ls} != {exp}")
    else:
        parts = cfg["ls"] if cfg["ls"] is not None else split(shape[axis], P)
        parts = list(parts)
        ok = True
        ls = lshapes(shape, axis, parts) if cfg["part"] == "S" else [shape] * P
        if cfg["mode"] == "bad":
            k = cfg["who"]
            if cfg["part"] == "S":
                t = list(ls[k])
                d = axis if len(shape) == 1 or cfg["delta"] in (-1, 1) else (axis + 1) % len(shape)
                t[d] = t[d] + cfg["delta"]
                if t[d] < 0:
                    t[d] = ls[k][d] + 1
                ls[k] = tuple(t)
                ok = False
            else:
                ls[k] = tuple(n + 1 for n in shape)
                ok = False
        w = spmd(P, lambda: DistributedArray(global_shape=shape, partition=part, axis=axis, local_shapes=ls).local_shape, cfg["sched"])
        if ok:
            for k, v in enumerate(values(w)):
                need(tuple(v) == tuple(ls[k]), f"explicit local shapes {ls} not used: rank {k} has {v}")
        else:
            need(any_raised(w), f"local shapes {ls} accepted for global shape {shape}")


# ------------------------------------------------------------------ C02
def gen_C02(rng):
    c = base_cfg(rng)
    return c


def run_C02(cfg):
    P = cfg["P"]
    x = data(cfg["seed"], cfg["shape"], cfg["cplx"])

    def f():
        k = rank()
        ls = lshapes(cfg["shape"], cfg["axis"], cfg["ls"]) if cfg["ls"] is not None and cfg["part"] == "S" else None
        d = DistributedArray.to_dist(x.copy(), partition=PARTS[cfg["part"]], axis=cfg["axis"], local_shapes=ls, mask=cfg["mask"])
        close(d.local_array, local(cfg, x, k), "local block")
        need(d.local_array.dtype == x.dtype, f"element type {d.local_array.dtype}")
        g = d.asarray()
        close(g, x, "gathered array")
        need(g.dtype == x.dtype, "gathered element type")
        need(tuple(d.global_shape) == x.shape and d.axis == cfg["axis"] and d.partition is PARTS[cfg["part"]], "metadata")
        e = make(cfg)[1]
        close(e.asarray(), x, "gather of a hand-filled array")
        return True
    checked(P, f, cfg["sched"], "distribute/gather")


# ------------------------------------------------------------------ C03
def gen_C03(rng):
    c = base_cfg(rng, parts="BBSU")
    c["ix"] = rng.choice(["all", "int", "slice", "tuple", "scalar", "ellipsis", "neg"])
    return c


def run_C03(cfg):
    P, shape = cfg["P"], cfg["shape"]

    def f():
        k = rank()
        x, d = make(cfg)
        loc = d.local_array.shape
        ref = np.array(d.local_array)
        comm = MPI.COMM_WORLD
        w = MPI._tls.world
        ix = {"all": slice(None), "ellipsis": Ellipsis, "scalar": slice(None), "int": 0, "neg": -1,
              "slice": slice(0, max(1, loc[0] // 2)), "tuple": tuple([slice(None)] * len(loc))}[cfg["ix"]]
        if loc[0] == 0 and cfg["ix"] in ("int", "neg"):
            ix = slice(None)
        val = lambda r: (1.5 + r if cfg["ix"] == "scalar" else data(cfg["seed"] + 7 + r, ref[ix].shape, cfg["cplx"]))  # noqa: E731
        n0 = len(w.trace[k])
        mine = val(k)
        d[ix] = mine
        n1 = len(w.trace[k])
        exp = ref.copy()
        exp[ix] = val(0) if cfg["part"] == "B" else val(k)
        close(d.local_array, exp, f"content after assignment at {cfg['ix']} ({cfg['part']})")
        if cfg["part"] != "B":
            need(n1 == n0, "assignment to a scattered/unsafe array communicates")
        allv = comm.allgather(np.array(d.local_array))
        if cfg["part"] == "B":
            for v in allv:
                close(v, allv[0], "replicas differ")
            if cfg["ix"] in ("all", "tuple", "ellipsis"):
                e = d + d
                for v in comm.allgather(np.array(e.local_array)):
                    close(v, 2 * allv[0], "replicas of a sum differ")
            # arrays the library creates as replicated
            n = int(np.prod(shape))
            A = data(cfg["seed"] + 50 + k, (3, n), cfg["cplx"])
            V = MPIVStack([pylops.MatrixMult(A, dtype=A.dtype)])
            yy = scatter(data(cfg["seed"] + 3, (3 * comm.Get_size(),), cfg["cplx"]))
            z = V.rmatvec(yy)
            zs = comm.allgather(np.array(z.local_array))
            for v in zs:
                need(np.array_equal(v, zs[0]), "replicated result of an adjoint stack differs between processes")
        return True
    checked(P, f, cfg["sched"], "replicated assignment")


# ------------------------------------------------------------------ C04
def gen_C04(rng):
    c = base_cfg(rng)
    c["op"] = rng.choice(["neg", "add", "sub", "iadd", "isub", "mul", "smul", "rmul", "conj", "copy", "zeros", "ravel", "ravelF"])
    c["scalar"] = rng.choice([2, -3.5, 0.25, 0, 1e-14, 3e11])
    if c["cplx"] and rng.random() < .5:
        c["scalar"] = str(rng.choice([2 - 3j, 1 + 1e-14j, (1 - 2j) * 1e-15, 1e-300j, 1e20 + 1j]))
    return c


def apply_op(op, a, b, s):
    if op == "neg":
        return -a
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * b
    if op == "smul":
        return a * s
    if op == "rmul":
        return s * a
    if op == "conj":
        return a.conj()
    if op == "copy":
        return a.copy()
    if op == "zeros":
        return a.zeros_like() if hasattr(a, "zeros_like") else np.zeros_like(a)
    if op == "iadd":
        a += b
        return a
    if op == "isub":
        a -= b
        return a
    if op == "ravel":
        return a.ravel()
    if op == "ravelF":
        return a.ravel(order="F")
    raise KeyError(op)


def check_meta(r, d, what, comm=None):
    need(tuple(r.global_shape) == tuple(d.global_shape), f"{what}: global shape {r.global_shape} vs {d.global_shape}")
    need(tuple(r.local_shape) == tuple(d.local_shape), f"{what}: local shape {r.local_shape} vs {d.local_shape}")
    need(r.partition is d.partition, f"{what}: partition {r.partition}")
    need(r.axis == d.axis, f"{what}: axis {r.axis} vs {d.axis}")
    need((r.mask is None) == (d.mask is None) and (d.mask is None or list(r.mask) == list(d.mask)), f"{what}: mask {r.mask} vs {d.mask}")
    need(np.dtype(r.dtype) == np.dtype(d.dtype) and r.local_array.dtype == d.local_array.dtype, f"{what}: element type {r.dtype}/{r.local_array.dtype} vs {d.dtype}")
    need(r.base_comm == d.base_comm, f"{what}: communicator")
    need(r.sub_comm.Get_size() == d.sub_comm.Get_size(), f"{what}: sub communicator")


def run_C04(cfg):
    op, s = cfg["op"], cfg["scalar"]
    s = complex(s) if isinstance(s, str) else s

    def f():
        k = rank()
        x, a = make(cfg, 0)
        y, b = make(cfg, 1)
        r = apply_op(op, a, b, s)
        if op.startswith("ravel"):
            o = "F" if op == "ravelF" else "C"
            exp = np.ravel(local(cfg, x, k), order=o)
            close(r.local_array, exp, "flattened local block")
            need(r.ndim == 1 and int(r.global_shape[0]) == x.size, f"flattened shape {r.global_shape}")
            need(r.partition is a.partition and (a.mask is None or list(r.mask) == list(a.mask)) and np.dtype(r.dtype) == np.dtype(a.dtype), "metadata of the flattened array")
            return True
        g = apply_op({"iadd": "add", "isub": "sub"}.get(op, op), x, y, s) if op != "zeros" else np.zeros_like(x)
        close(r.local_array, local(cfg, g, k), f"{op}: local block")
        if op in ("smul", "rmul"):
            sc = max(abs(s), 1e-290)
            part = lambda v: np.concatenate([np.ravel(np.real(v)) / sc, np.ravel(np.imag(v)) / sc])  # noqa: E731
            close(part(r.local_array), part(local(cfg, g, k)), f"{op}: local block relative to the scalar")
            if isinstance(s, complex):
                need(np.array_equal(np.real(r.local_array), np.real(local(cfg, g, k))) and np.array_equal(np.imag(r.local_array), np.imag(local(cfg, g, k))) or
                     np.allclose(r.local_array / s, local(cfg, x, k), rtol=4e-15 if abs(s.imag) < 1e-10 * abs(s) else 1e-9, atol=0), f"{op}: local block")
        check_meta(r, a, op)
        if op in ("iadd", "isub"):
            need(r is a, "in-place operation returned another object")
        return True
    checked(cfg["P"], f, cfg["sched"], op)


# ------------------------------------------------------------------ C05
def gen_C05(rng):
    c = base_cfg(rng)
    c["op"] = rng.choice(["neg", "add", "sub", "iadd", "isub", "mul", "smul", "rmul", "conj", "copy", "zeros", "ravel", "dot", "norm",
                          "asarray", "todist", "ghost", "opfwd", "opadj", "stack", "stack", "reshaped", "expr", "solver", "fred"])
    c["scalar"] = rng.choice([2, -3.5, 1])
    c["expr"] = rng.choice(["A", "AH", "AT", "conj", "sA", "A+B", "AB", "pow0", "pow1", "pow2", "neg", "sub"])
    c["kind"] = rng.choice(["block", "vstack", "hstack", "deriv", "lap", "grad", "lin"])
    return c


def storage(o):
    if isinstance(o, StackedDistributedArray):
        return [s for d in o.distarrays for s in storage(d)]
    if isinstance(o, DistributedArray):
        return [o.local_array]
    if isinstance(o, np.ndarray):
        return [o]
    return []


def guard(fn, operands, what, fresh=True, changed=()):
    """operands unchanged by fn(), result does not share their storage"""
    snap = [[s.copy() for s in storage(o)] for o in operands]
    r = fn()
    for i, o in enumerate(operands):
        if i in changed:
            continue
        for s, t in zip(storage(o), snap[i]):
            need(s.shape == t.shape and s.dtype == t.dtype and np.array_equal(s, t, equal_nan=True), f"{what} changed operand {i}")
    if fresh:
        for s in storage(r):
            for i, o in enumerate(operands):
                for t in storage(o):
                    need(not np.shares_memory(s, t), f"the result of {what} shares storage with operand {i}")
    return r


def make_op(kind, seed, P, cplx=False):
    """distributed operator and an input/data vector"""
    k = rank()
    if kind in ("block", "lap"):
        A = data(seed + 10 * k, (3, 3), cplx)
        O = MPIBlockDiag([pylops.MatrixMult(A, dtype=A.dtype)])
    elif kind == "vstack":
        A = data(seed + 10 * k, (2, 3), cplx)
        O = MPIVStack([pylops.MatrixMult(A, dtype=A.dtype)])
    elif kind == "hstack":
        A = data(seed + 10 * k, (3, 2), cplx)
        O = MPIHStack([pylops.MatrixMult(A, dtype=A.dtype)])
    elif kind == "deriv":
        O = MPIFirstDerivative((5 * P,), dtype=complex if cplx else float)
    elif kind == "grad":
        O = MPIFirstDerivative((4 * P, 2), kind="forward", dtype=complex if cplx else float)
    else:
        A = data(seed, (4, 4), cplx)
        O = MPILinearOperator(pylops.MatrixMult(A, dtype=A.dtype))
    xp, yp = "S", "S"
    if kind == "vstack":
        xp = "B"
    if kind == "hstack":
        yp = "B"
    if kind == "lin":
        xp = yp = "B"
    x = scatter(data(seed + 1, (int(O.shape[1]),), cplx), part=xp)
    y = scatter(data(seed + 2, (int(O.shape[0]),), cplx), part=yp)
    return O, x, y


def build_expr(e, A, B):
    return {"A": lambda: A, "AH": lambda: A.H, "AT": lambda: A.T, "conj": lambda: A.conj(), "sA": lambda: 2.5 * A,
            "A+B": lambda: A + B, "AB": lambda: A * B, "pow0": lambda: A ** 0, "pow1": lambda: A ** 1, "pow2": lambda: A ** 2,
            "neg": lambda: -A, "sub": lambda: A - B}[e]()


def run_C05(cfg):
    op, s = cfg["op"], cfg["scalar"]

    def f():
        x, a = make(cfg, 0)
        y, b = make(cfg, 1)
        P = cfg["P"]
        if op in ("dot", "norm"):
            guard(lambda: a.dot(b) if op == "dot" else a.norm(2), [a, b], op)
            pr = cfg["ls"] if cfg["part"] == "S" and cfg["ls"] is not None else split(cfg["shape"][cfg["axis"] if cfg["part"] == "S" else 0], P)
            if op == "norm" and min(pr) > 0:
                for o in (0, 1, 2, 3):
                    guard(lambda: a.norm(o), [a], f"norm {o}")
        elif op == "todist":
            kw = dict(partition={"S": Partition.SCATTER, "B": Partition.BROADCAST, "U": Partition.UNSAFE_BROADCAST}[cfg["part"]], axis=cfg["axis"])
            guard(lambda: DistributedArray.to_dist(x, **kw), [x], op)
        elif op == "asarray":
            guard(lambda: a.asarray(), [a], op, fresh=cfg["part"] == "S")
        elif op == "ghost":
            if cfg["part"] == "S" and min(split(cfg["shape"][cfg["axis"]], P) if cfg["ls"] is None else cfg["ls"]) >= 1:
                guard(lambda: a.add_ghost_cells(1, 1), [a], op)
        elif op in ("opfwd", "opadj", "expr"):
            O, u, v = make_op(cfg["kind"], cfg["seed"], P, cfg["cplx"])
            if op == "expr":
                O, u, v = make_op("block" if cfg["kind"] in ("vstack", "hstack", "grad") else cfg["kind"], cfg["seed"], P, cfg["cplx"])
                O = build_expr(cfg["expr"], O, O)
                guard(lambda: O.matvec(u), [u, v], f"matvec of {cfg['expr']}")
                guard(lambda: O.rmatvec(v), [u, v], f"rmatvec of {cfg['expr']}")
            elif op == "opfwd":
                guard(lambda: O.matvec(u), [u, v], "matvec")
            else:
                guard(lambda: O.rmatvec(v), [u, v], "rmatvec")
        elif op == "reshaped":
            n = 6 * P
            u = scatter(data(cfg["seed"], (n,)), parts=[6] * P)
            D = MPISecondDerivative((n,))
            guard(lambda: D.matvec(u), [u], "second derivative")
            guard(lambda: D.rmatvec(u), [u], "second derivative adjoint")
        elif op == "stack":
            sa = StackedDistributedArray([a, b])
            sb = StackedDistributedArray([make(cfg, 2)[1], make(cfg, 3)[1]])
            guard(lambda: sa + sb, [sa, sb], "stacked add")
            guard(lambda: sa - sb, [sa, sb], "stacked sub")
            guard(lambda: sa * sb, [sa, sb], "stacked mul")
            guard(lambda: -sa, [sa], "stacked neg")
            guard(lambda: sa.conj(), [sa], "stacked conj")
            guard(lambda: sa.copy(), [sa], "stacked copy")
            guard(lambda: sa.dot(sb), [sa, sb], "stacked dot")
            guard(lambda: sa * 2.0, [sa], "stacked scalar")
            guard(lambda: sa.asarray(), [sa], "stacked gather")
            guard(lambda: sa.__iadd__(sb), [sa, sb], "stacked iadd", fresh=False, changed=(0,))
        elif op == "solver":
            O, u, v = make_op("block", cfg["seed"], P, False)
            guard(lambda: pylops_mpi.cgls(O, v, u, niter=2)[0], [v, u], "cgls")
            H = O.H * O
            v2 = O.rmatvec(v)
            guard(lambda: pylops_mpi.cg(H, v2, u, niter=2)[0], [v2, u], "cg")
        elif op == "fred":
            G = data(cfg["seed"], (2, 3, 2), cfg["cplx"])
            F = pylops_mpi.signalprocessing.MPIFredholm1(G, 2, saveGt=cfg["scalar"] == 2, dtype=G.dtype)
            u = scatter(data(1, (int(F.shape[1]),), cfg["cplx"]), part="B")
            v = scatter(data(1, (int(F.shape[0]),), cfg["cplx"]), part="B")
            guard(lambda: F.matvec(u), [u, G], "Fredholm")
            guard(lambda: F.rmatvec(v), [v, G], "Fredholm adjoint")
        elif op in ("iadd", "isub"):
            guard(lambda: apply_op(op, a, b, s), [a, b], op, fresh=False, changed=(0,))
            need(not np.shares_memory(a.local_array, b.local_array), f"{op}: left operand shares storage with the right one")
        else:
            guard(lambda: apply_op(op, a, b, s), [a, b], op)
        return True
    checked(cfg["P"], f, cfg["sched"], op)


# ------------------------------------------------------------------ C06
def gen_C06(rng):
    what, o = rng.choice(["dot", "norm", "norm", "normax"]), rng.choice([None, 0, 1, 2, 3, 4, 5, "inf", "-inf"])
    c = base_cfg(rng, minshare=1 if isinstance(o, str) else 0)
    c["what"], c["ord"] = what, o
    return c


def norm_ref(v, o, axis=None):
    o = 2 if o is None else o
    if axis is None:
        v, axis = v.reshape(-1), 0
    if o == 0:
        return np.count_nonzero(v, axis=axis).astype(float)
    if o == "inf":
        return np.max(np.abs(v), axis=axis)
    if o == "-inf":
        return np.min(np.abs(v), axis=axis)
    return np.sum(np.abs(v) ** o, axis=axis) ** (1.0 / o)


def run_C06(cfg):
    P = cfg["P"]
    shape, axis = cfg["shape"], cfg["axis"]
    if cfg["part"] != "S" and isinstance(cfg["ord"], str):
        # the content is redistributed along axis 0
        if shape[0] < P:
            shape[0] = P
    parts = (cfg["ls"] if cfg["ls"] is not None else split(shape[axis], P)) if cfg["part"] == "S" else split(shape[0], P)
    cax = axis if cfg["part"] == "S" else 0

    def group(g, k):
        if cfg["mask"] is None:
            return g
        mem = [j for j in range(P) if cfg["mask"][j] == cfg["mask"][k]]
        return np.concatenate([block(g, cax, parts, j) for j in mem], axis=cax)

    def f():
        k = rank()
        x, a = make(cfg, 0)
        y, b = make(cfg, 1)
        o = {"inf": np.inf, "-inf": -np.inf}.get(cfg["ord"], cfg["ord"])
        if cfg["what"] == "dot":
            return a.dot(b), np.dot(group(x, k).reshape(-1), group(y, k).reshape(-1))
        if cfg["what"] == "norm":
            return a.norm(o), norm_ref(group(x, k), cfg["ord"])
        if cax == len(shape) - 1 and False:
            return 0, 0
        return a.norm(o, axis=cax), norm_ref(group(x, k), cfg["ord"], cax)
    vals = values(spmd(P, f, cfg["sched"]), cfg["what"])
    for k, (got, exp) in enumerate(vals):
        g = np.asarray(got)
        e = np.asarray(exp)
        need(g.shape == e.shape, f"{cfg['what']} {cfg['ord']}: shape {g.shape} vs {e.shape}")
        close(g.reshape(e.shape), e, f"rank {k} {cfg['what']} ord={cfg['ord']}")
    if cfg["mask"] is None:
        for got, _ in vals:
            need(np.array_equal(np.asarray(got), np.asarray(vals[0][0])), "processes obtain different values")


# ------------------------------------------------------------------ C07
def gen_C07(rng):
    c = base_cfg(rng, parts="S")
    P = c["P"]
    c["mask"] = None
    c["front"] = [rng.choice([0, 1, 1, 2, 3]) for _ in range(P)] if rng.random() < 0.8 else None
    c["back"] = [rng.choice([0, 1, 1, 2, 3]) for _ in range(P)] if rng.random() < 0.8 else None
    if rng.random() < 0.7:
        c["shape"][c["axis"]] = max(c["shape"][c["axis"]], 3 * P)
        c["ls"] = rand_split(rng, c["shape"][c["axis"]], P, 3) if rng.random() < 0.7 else None
    return c


def run_C07(cfg):
    P, axis = cfg["P"], cfg["axis"]
    x = data(cfg["seed"], cfg["shape"], cfg["cplx"])
    parts = cfg["ls"] if cfg["ls"] is not None else split(cfg["shape"][axis], P)
    fr, bk = cfg["front"], cfg["back"]
    ok = True
    for k in range(P):
        if fr is not None and k > 0 and parts[k - 1] < fr[k]:
            ok = False
        if bk is not None and k < P - 1 and parts[k + 1] < bk[k]:
            ok = False
    o = offsets(parts)

    def f():
        k = rank()
        _, a = make(cfg)
        before = a.local_array.copy()
        g = a.add_ghost_cells(None if fr is None else fr[k], None if bk is None else bk[k])
        need(np.array_equal(before, a.local_array), "the array itself changed")
        need(not np.shares_memory(g, a.local_array), "the ghosted array shares storage with the array")
        return g
    w = spmd(P, f, cfg["sched"])
    if not ok:
        need(any_raised(w), f"neighbour owns too few values (parts {parts}, front {fr}, back {bk}) but no error was raised: {describe(w)}")
        return
    for k, g in enumerate(values(w, "ghost cells")):
        lo = int(o[k]) - (fr[k] if fr is not None and k > 0 else 0)
        hi = int(o[k + 1]) + (bk[k] if bk is not None and k < P - 1 else 0)
        sl = [slice(None)] * x.ndim
        sl[axis] = slice(lo, hi)
        close(g, x[tuple(sl)], f"ghosted array of rank {k} (front {fr}, back {bk})")


# ------------------------------------------------------------------ C21
def gen_C21(rng):
    c = base_cfg(rng, parts="SSBU")
    c["P"] = P = max(2, c["P"])
    n = c["shape"][c["axis"]] = max(c["shape"][c["axis"]], P + 1)
    c["ls"] = rand_split(rng, n, P, 0)
    c["mask"] = None
    c["what"] = rng.choice(["partition", "localshape", "mask", "maskmissing", "length", "oplen", "stackn", "stackshape", "opshape", "axis",
                            "tile", "axisneg", "stackop", "powsq", "ok", "okmask", "kron", "vcols", "prodstack"])
    c["op"] = rng.choice(["add", "iadd", "sub", "isub", "mul", "dot"])
    c["m1"] = [rng.randint(0, 1) for _ in range(P)]
    c["m2"] = [1 - v for v in c["m1"]]
    if rng.random() < .5:
        c["m2"] = list(c["m1"])
        j = rng.randrange(P)
        c["m2"][j] = 2
    return c


def run_C21(cfg):
    P = cfg["P"]
    shape, axis = tuple(cfg["shape"]), cfg["axis"]
    op = cfg["op"]

    def comb(a, b):
        return a.dot(b) if op == "dot" else apply_op(op, a, b, 1)

    def rejected(fn, objs, what):
        """every rank must raise and leave data untouched"""
        def g():
            os_ = objs()
            snap = [[s.copy() for s in storage(o)] for o in os_]
            try:
                fn(*os_)
            except (MPI.Deadlock, MPI.CollectiveMismatch):
                raise
            except Exception as e:  # noqa: BLE001
                for o, t in zip(os_, snap):
                    for s, u in zip(storage(o), t):
                        need(np.array_equal(s, u, equal_nan=True), f"{what}: operand data changed before the error")
                return type(e).__name__
            return None
        w = spmd(P, g, cfg["sched"])
        for k, o in enumerate(w.outcome):
            if o[0] == "raise":
                raise Violation(f"{what} rank {k}: {o[2]}")
        need(any(o[0] == "ok" and o[1] for o in w.outcome), f"{what} was accepted ({describe(w)})")
        return w
    w_ = cfg["what"]
    c2 = dict(cfg)
    if w_ in ("partition", "localshape", "mask", "maskmissing", "length", "ok", "okmask"):
        if w_ == "partition":
            c2["part"] = {"S": "B", "B": "U", "U": "B"}[cfg["part"]]
            if cfg["part"] == "S" and P > 1 and False:
                pass
        elif w_ == "localshape":
            cfg["part"] = c2["part"] = "S"
            ls = list(cfg["ls"])
            j = int(np.argmax(ls))
            ls[j] -= 1
            ls[(j + 1) % P] += 1
            c2["ls"] = ls
        elif w_ == "mask":
            cfg["mask"], c2["mask"] = cfg["m1"], cfg["m2"]
        elif w_ == "maskmissing":
            cfg["mask"], c2["mask"] = (cfg["m1"], None) if cfg["seed"] % 2 else (None, cfg["m1"])
        elif w_ == "length":
            s2 = list(shape)
            s2[axis] += P
            c2["shape"] = s2
            cfg["part"] = c2["part"] = "S"
            c2["ls"] = [n + 1 for n in cfg["ls"]]
        if w_ in ("ok", "okmask"):
            if w_ == "okmask":
                cfg["mask"] = c2["mask"] = cfg["m1"]

            def f():
                a, b = make(cfg)[1], make(c2, 1)[1]
                comb(a, b)
                return True
            checked(P, f, cfg["sched"], "compatible operands")
            return
        # a local-shape mismatch must be noticed at least by the ranks where it exists
        rejected(comb, lambda: (make(cfg)[1], make(c2, 1)[1]), f"{op} of arrays differing in {w_}")
    elif w_ == "oplen":
        for kind in ("block", "deriv", "lin"):
            for adj in (False, True):
                def objs():
                    O, u, v = make_op(kind, cfg["seed"], P)
                    n = int(O.shape[0 if adj else 1]) + (1 if cfg["seed"] % 2 else -1)
                    return (O, scatter(data(3, (n,)), part="B" if kind == "lin" else "S"))
                rejected(lambda O, u: (O.rmatvec if adj else O.matvec)(u), objs, f"applying {kind} (adjoint={adj}) to a vector of another length")
    elif w_ in ("stackn", "stackshape"):
        def objs():
            a, b, c = make(cfg)[1], make(cfg, 1)[1], make(cfg, 2)[1]
            s1 = StackedDistributedArray([a, b])
            if w_ == "stackn":
                return s1, StackedDistributedArray([c] if cfg["seed"] % 2 else [c, c.copy(), c.copy()])
            c3 = dict(cfg)
            c3["shape"] = [n + P for n in shape]
            c3["ls"] = None
            return s1, StackedDistributedArray([c, make(c3, 3)[1]])
        o2 = op if op not in ("sub", "isub") else {"sub": "add", "isub": "iadd"}[op]
        rejected(lambda a, b: a.dot(b) if o2 == "dot" else apply_op(o2, a, b, 1), objs, f"{op} of stacks differing in {w_}")
    elif w_ == "opshape":
        def objs():
            A = MPIBlockDiag([pylops.MatrixMult(data(1, (3, 2)))])
            B = MPIBlockDiag([pylops.MatrixMult(data(2, (3, 4)))])
            return A, B
        rejected(lambda A, B: A + B, objs, "sum of operators of different shape")
        rejected(lambda A, B: A * B, objs, "product of operators of incompatible shape")
        rejected(lambda A, B: A ** 2, objs, "power of a non-square operator")
    elif w_ == "stackop":
        def objs():
            A = MPIBlockDiag([pylops.MatrixMult(data(1, (3, 2)))])
            B = MPIBlockDiag([pylops.MatrixMult(data(2, (3, 4)))])
            return A, B
        rejected(lambda A, B: MPIStackedVStack([A, B]), objs, "vertical stack of operators with different columns")
        rejected(lambda A, B: MPIStackedBlockDiag([A, B]) + MPIStackedBlockDiag([A, A]), objs, "sum of stacked operators of different shape")
        rejected(lambda A, B: MPIStackedBlockDiag([A, A]) * MPIStackedBlockDiag([B, A]), objs, "product of stacked operators of different shape")

        def objs2():
            A, B = objs()
            S = MPIStackedBlockDiag([A, B])
            xs = StackedDistributedArray([scatter(data(1, (2 * P,))), scatter(data(2, (4 * P + 1,)))])
            return S, xs
        rejected(lambda S, xs: S.matvec(xs), objs2, "stacked operator on a stacked vector of another length")
        rejected(lambda S, xs: S.rmatvec(xs), objs2, "adjoint of a stacked operator on a stacked vector of another length")
    elif w_ == "powsq":
        def objs():
            return (MPIBlockDiag([pylops.MatrixMult(data(1, (3, 3)))]),)
        rejected(lambda A: A ** (-1), objs, "negative power")
        rejected(lambda A: A ** 1.5, objs, "fractional power")
    elif w_ in ("vcols", "kron"):
        def mk():
            k = rank()
            n = 3 if k < P - 1 else 4
            if w_ == "vcols":
                return MPIVStack([pylops.MatrixMult(data(1, (2, n)))])
            return MPIHStack([pylops.MatrixMult(data(1, (n, 2)))])
        rejected(lambda: mk(), lambda: (), "stack of operators of inconsistent sizes on different ranks")
    elif w_ == "prodstack":
        def objs():
            A = MPIBlockDiag([pylops.MatrixMult(data(1, (3, 3)))])
            return A, MPIStackedBlockDiag([A, A])
        rejected(lambda A, S: A + S, objs, "sum of an operator and a stacked operator")
    elif w_ in ("axis", "axisneg"):
        ax = len(shape) + (cfg["seed"] % 2)
        rejected(lambda: DistributedArray(global_shape=shape, axis=ax, partition=PARTS[cfg["part"]]), lambda: (), "axis out of range")
    else:
        ls = lshapes(shape, axis, [n + (1 if j == cfg["seed"] % P else 0) for j, n in enumerate(cfg["ls"])])
        rejected(lambda: DistributedArray(global_shape=shape, axis=axis, local_shapes=ls), lambda: (), f"local shapes {ls} for {shape}")
        rejected(lambda: DistributedArray(global_shape=shape, axis=axis, local_shapes=ls[:-1]), lambda: (), "too few local shapes")
        if len(shape) > 1:
            d = (axis + 1) % len(shape)
            ls2 = [tuple(n + (1 if i == d and j == cfg["seed"] % P else 0) for i, n in enumerate(t)) for j, t in enumerate(lshapes(shape, axis, cfg["ls"]))]
            rejected(lambda: DistributedArray(global_shape=shape, axis=axis, local_shapes=ls2), lambda: (), f"local shapes {ls2} for {shape}")


# ------------------------------------------------------------------ C22
def gen_C22(rng):
    P = rng.randint(2, 5)
    c = base_cfg(rng)
    c["W"] = P
    c["color"] = [rng.randint(0, 1) for _ in range(P)]
    c["ls"] = None
    c["mask"] = None
    c["withmask"] = rng.random() < 0.3
    c["op"] = rng.choice(["neg", "add", "sub", "iadd", "isub", "mul", "smul", "rmul", "conj", "copy", "zeros", "ravel", "dot", "norm", "norm",
                          "asarray", "todist", "ghost", "stack", "stackconj", "stackcopy", "stackadd", "stackdot", "stacknorm", "stackneg", "stackmul"])
    c["ord"] = rng.choice([None, 0, 1, 2, 3, "inf", "-inf"])
    c["shape"][c["axis"]] = max(c["shape"][c["axis"]], P)
    c["shape"][0] = max(c["shape"][0], P)
    return c


def run_C22(cfg):
    W, color, op = cfg["W"], cfg["color"], cfg["op"]

    def f():
        k = rank()
        comm = MPI.COMM_WORLD.Split(color=color[k], key=k)
        if color[k] == 1:
            return True          # the other group does nothing: using the world communicator cannot succeed
        p, j = comm.Get_size(), comm.Get_rank()
        c = dict(cfg)
        if cfg["withmask"]:
            c["mask"] = [i % 2 for i in range(p)]
        w = MPI._tls.world
        x, a = make(c, 0, comm)
        y, b = make(c, 1, comm)
        n0 = len(w.trace[k])
        loc = lambda g: local(c, g, j, p)  # noqa: E731
        gx = x
        o = {"inf": np.inf, "-inf": -np.inf}.get(cfg["ord"], cfg["ord"])

        def grp(g):
            if c["mask"] is None:
                return g
            ax = c["axis"] if c["part"] == "S" else 0
            pr = split(g.shape[ax], p)
            return np.concatenate([block(g, ax, pr, i) for i in range(p) if c["mask"][i] == c["mask"][j]], axis=ax)
        if op == "dot":
            r = a.dot(b)
            close(r, np.dot(grp(x).reshape(-1), grp(y).reshape(-1)), "dot on a sub-communicator")
        elif op == "norm":
            close(np.asarray(a.norm(o)).reshape(()), norm_ref(grp(gx), cfg["ord"]), "norm on a sub-communicator")
        elif op == "asarray":
            close(a.asarray(), x, "gather on a sub-communicator")
        elif op == "todist":
            d = DistributedArray.to_dist(x, base_comm=comm, axis=c["axis"], partition=PARTS[c["part"]])
            close(d.local_array, loc(x), "distribution on a sub-communicator")
            need(d.base_comm == comm, "communicator of the distributed array")
        elif op == "ghost":
            if c["part"] == "S":
                g = a.add_ghost_cells(1, 1)
                of = offsets(split(c["shape"][c["axis"]], p))
                sl = [slice(None)] * x.ndim
                sl[c["axis"]] = slice(int(of[j]) - (1 if j else 0), int(of[j + 1]) + (1 if j < p - 1 else 0))
                close(g, x[tuple(sl)], "ghost cells on a sub-communicator")
        elif op.startswith("stack"):
            s, t = StackedDistributedArray([a, b], base_comm=comm), StackedDistributedArray([b.copy(), a.copy()], base_comm=comm)
            r, ex = None, None
            if op == "stackconj":
                r, ex = s.conj(), [x.conj(), y.conj()]
            elif op == "stackcopy":
                r, ex = s.copy(), [x, y]
            elif op == "stackadd":
                r, ex = s + t, [x + y, x + y]
            elif op == "stackneg":
                r, ex = -s, [-x, -y]
            elif op == "stackmul":
                r, ex = s * 2, [2 * x, 2 * y]
            elif op == "stackdot":
                close(s.dot(t), 2 * np.dot(grp(x).reshape(-1), grp(y).reshape(-1)), "stacked dot on a sub-communicator")
            elif op == "stacknorm":
                z = np.concatenate([grp(x).reshape(-1), grp(y).reshape(-1)])
                close(np.asarray(s.norm(o)).reshape(()), norm_ref(z, cfg["ord"]), "stacked norm on a sub-communicator")
            else:
                close(s.asarray(), np.concatenate([x.reshape(-1), y.reshape(-1)]), "stacked gather on a sub-communicator")
            if r is not None:
                need(r.base_comm == comm, f"{op}: the stacked result lives on another communicator")
                need(r.size == p and r.rank == j, f"{op}: size/rank of the stacked result")
                for d, e in zip(r.distarrays, ex):
                    need(d.base_comm == comm, f"{op}: component on another communicator")
                    close(d.local_array, loc(e), op)
        else:
            r = apply_op(op, a, b, 2.5)
            need(r.base_comm == comm, f"{op}: the result lives on another communicator")
            if op == "ravel":
                close(r.local_array, loc(x).reshape(-1), op)
            else:
                g = np.zeros_like(x) if op == "zeros" else apply_op({"iadd": "add", "isub": "sub"}.get(op, op), x, y, 2.5)
                close(r.local_array, loc(g), op)
                need(tuple(r.local_shape) == tuple(loc(x).shape), f"{op}: local shape")
        for (cid, nm, det) in w.trace[k][n0:]:
            need(cid != 0, f"{op}: {nm} on the world communicator")
        return True
    checked(W, f, cfg["sched"], op)
