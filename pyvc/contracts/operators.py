"""C13 (and C14 for stacked operators): operator algebra obeys the matrix laws.

Every node of an operator expression is checked over abstract operators (module absop): its shape, its element type,
its forward and adjoint application, and those of its adjoint, transpose and conjugate. The parts of an expression are
again operators with that contract, so the laws follow for expressions of any depth."""
import z3
from ..spec import *
from ..absop import *
from .. import data as D

L_ = "pylops_mpi.LinearOperator"
SL_ = "pylops_mpi.StackedLinearOperator"
M_ = f"{L_}.MPILinearOperator"
SM_ = f"{SL_}.MPIStackedLinearOperator"


def stacked_kind(kind):
    return kind in ("stacked", "mixed")


def spaces(kind):
    m = DA()
    if kind == "scatter":
        return [Space(Layout.scatter(t, 1, 0)) for t in ("a", "b", "d")]
    if kind == "replicated":
        return [Space(Layout.scatter("a", 1, 0)), Space(Replicated("b", 1)), Space(Layout.scatter("d", 1, 0))]
    if kind == "stacked":
        return [Space(Layout.scatter("a", 1, 0), Replicated("b", 1)), Space(Layout.scatter("d", 1, 0), Layout.scatter("e", 1, 0)), Space(Layout.scatter("f", 1, 0), Replicated("g", 1))]
    if kind == "mixed":
        return [Space(Layout.scatter("a", 1, 0), Layout.scatter("b", 1, 0)), Space(Layout.scatter("d", 1, 0)), Space(Layout.scatter("f", 1, 0), Layout.scatter("g", 1, 0))]


def scalars(dt):
    real = dt == "float64"
    s = D.leaf("s", real=real)
    out = [("symbolic", SNum(s, dt), s), ("integer", 3, D.const(3)), ("fraction", -0.5, D.const(-0.5))]
    if not real:
        out.append(("complex", complex(1, -2), D.const(complex(1, -2))))
    return out


def nodes(node, sp, dt):
    """(variant, operator, matrix)"""
    X, Y, Z = sp
    A, a = abstract("A", X, Y, dt)
    if node == "scaled":
        for nm, s, p in scalars(dt):
            for form, op in (("*s", lambda: A * s), ("s*", lambda: s * A)):
                if nm == "symbolic" or form == "s*":
                    yield f"{nm} {form}", op, a.scale(p)
    elif node == "negated":
        yield node, lambda: -A, a.scale(D.const(-1))
    elif node in ("sum", "difference"):
        Bo, b = abstract("B", X, Y, dt)
        if node == "sum":
            yield node, lambda: A + Bo, a + b
        else:
            yield node, lambda: A - Bo, a + b.scale(D.const(-1))
    elif node == "product":
        Bo, b = abstract("B", Y, Z, dt)
        yield "*", lambda: A * Bo, a * b
        yield "@", lambda: A @ Bo, a * b
    elif node == "adjoint":
        yield "H", lambda: A.H, a.H
        yield "adjoint()", lambda: A.adjoint(), a.H
    elif node == "transpose":
        yield "T", lambda: A.T, a.T
        yield "transpose()", lambda: A.transpose(), a.T
    elif node == "conj":
        yield node, lambda: A.conj(), a.C
    elif node == "plain":
        yield node, lambda: A, a


DERIVED = {"itself": (lambda o: o, lambda a: a), "H": (lambda o: o.H, lambda a: a.H), "T": (lambda o: o.T, lambda a: a.T), "conj": (lambda o: o.conj(), lambda a: a.C)}

NODES = {"plain": "", "scaled": "_ScaledLinearOperator", "negated": "_ScaledLinearOperator", "sum": "_SumLinearOperator", "difference": "_SumLinearOperator",
         "product": "_ProductLinearOperator", "adjoint": "_AdjointLinearOperator", "transpose": "_TransposedLinearOperator", "conj": "_ConjLinearOperator"}
METHODS = {"scaled": "__mul__ __rmul__ dot", "negated": "__neg__", "sum": "__add__", "difference": "__sub__ __neg__ __add__", "product": "dot __mul__ __matmul__",
           "adjoint": "adjoint _adjoint", "transpose": "transpose _transpose", "conj": "conj", "plain": "dot matvec rmatvec adjoint transpose conj __matmul__"}


def covered(node, derived, stacked):
    mod, cls = (SL_, SM_) if stacked else (L_, M_)
    out = [f"{cls}.{x}" for x in METHODS[node].split()] + [f"{cls}.matvec", f"{cls}.rmatvec"]
    k = NODES[node]
    if k:
        if stacked and k != "_ConjLinearOperator":
            k = k.replace("Linear", "StackedLinear")
        out += [f"{mod}.{k}.__init__", f"{mod}.{k}._matvec", f"{mod}.{k}._rmatvec"]
        if derived in ("H",) and node in ("scaled", "negated", "sum", "difference", "product", "conj"):
            out.append(f"{mod}.{k}._adjoint")
    return out


def check_op(nm, op, a, dt):
    """the operator acts as its matrix, in both directions"""
    tuple_is(f"{nm}: shape", op.shape, (mk(a.rows.total), mk(a.cols.total)))
    holds(f"{nm}: element type", sarr.DT(op.dtype) == sarr.DT(dt), {"what": str(op.dtype)})
    for what, f, src, dst, g in (("matvec", lambda x: op.matvec(x), a.cols, a.rows, a.fwd), ("rmatvec", lambda x: op.rmatvec(x), a.rows, a.cols, a.adj),
                                 ("@", lambda x: op @ x, a.cols, a.rows, a.fwd)):
        if what == "@" and nm != "itself":
            continue
        x, parts = vector("x", src, dt)
        before = [p.local_array.snapshot() for p in parts]
        y = returns(f"{nm} {what}", lambda: f(x))
        vector_is(f"{nm} {what}", y, dst, g(vec_content("x", src, dt)), dt)
        for j, (p, s) in enumerate(zip(parts, before)):
            unchanged(f"{nm} {what}: vector[{j}]", p.local_array, s)


for kind in ("scatter", "replicated", "stacked", "mixed"):
    stacked = kind in ("stacked", "mixed")
    for node in NODES:
        for dn in DERIVED:
            for dt in ("float64", "complex128"):
                if (dt == "float64" or kind in ("replicated", "mixed")) and dn in ("T", "conj"):
                    continue
                if kind in ("replicated", "mixed") and dt == "float64":
                    continue

                @unit(f"operator {node} {dn}[{kind},{dt}]", ("C14" if stacked else "C13") + " C05", covered(node, dn, stacked), assumes=("contract of the operands (module absop)",))
                def _(c, kind=kind, node=node, dn=dn, dt=dt):
                    der, dera = DERIVED[dn]
                    for var, op, a in nodes(node, spaces(kind), dt):
                        if node == "difference" and stacked_kind(kind):
                            # stacked operators can only be added to stacked operators of the same class
                            o = attempt(op)
                            if isinstance(o, Raised):
                                reach("return")
                                continue
                        o = returns(f"{var}: construction", op)
                        check_op(dn, der(o), dera(a), dt)


# ------------------------------------------------------------------ powers: induction over the exponent
def power_hook(c, where, sp, dt, p, X, pw, step, x):
    """invariant of the loop of _power: pw(0) = x, pw(k + 1) = A pw(k), and after k iterations the one vector the loop
    carries (under whatever name, overwritten or bound again) is pw(k)"""
    def put(name, k):
        """the carried vector becomes pw(k)"""
        if name in c.mem["carried"]:
            v, parts = vector("pw", sp, dt)
            loader.rebind(where, **{name: v})
        else:
            v = loader.current_locals(where)[name]
            parts = getattr(v, "distarrays", None) or [v]
        for d, (lay, q) in enumerate(zip(sp.lays, parts)):
            q.local_array._assign(sarr.new_array([I(t) for t in lay.local()], lambda idx, d=d, lay=lay: pw(k)(d, lay.gidx(idx)[0]), dt))

    def hook(it, n=None, at=None, loc=None):
        if n is None or at is None or "power hook" in c.mem:
            raise Unsupported("one loop over the exponent expected")
        c.mem["power hook"] = True
        carried = c.mem.get("carried", ())
        now = loader.current_locals(where)
        names = [m for m, v in now.items() if isinstance(v, type(x)) and (v is not x or m in carried)]
        if len(names) != 1:
            raise Unsupported("the loop carries other variables")
        name, = names
        holds("as many applications as the exponent says", I(n) == p)
        vector_is("before the loop", now[name], sp, X, dt)
        if c.fork(p > 0):
            kk = T.fresh("k")
            c.assume(z3.And(kk >= 0, kk < p))
            put(name, kk)
            yield at(kk)
            vector_is("after an iteration", loader.current_locals(where)[name], sp, step(pw(kk)), dt)
        put(name, p)
    return hook


for stacked in (False, True):
    for dt in ("float64", "complex128"):
        for mode in ("matvec", "rmatvec"):
            LL, MM, where = (SL_, SM_, f"{SL_}:_power") if stacked else (L_, M_, f"{L_}:_power")

            @unit(f"{'stacked ' if stacked else ''}operator power {mode}[{dt}]", ("C14" if stacked else "C13") + " C05",
                  [f"{LL}._PowerLinearOperator.__init__", f"{LL}._PowerLinearOperator._power", f"{LL}._PowerLinearOperator._{mode}", f"{MM}.__pow__"],
                  assumes=("contract of the operand (module absop)",))
            def _(c, dt=dt, mode=mode, stacked=stacked, where=where):
                sp = Space(Layout.scatter("a", 1, 0), Replicated("b", 1)) if stacked else Space(Layout.scatter("a", 1, 0))
                A, a = abstract("A", sp, sp, dt)
                p = dim("p", 0)
                op = returns("power", lambda: A ** mk(p))
                tuple_is("power: shape", op.shape, (mk(sp.total), mk(sp.total)))
                holds("power: element type", sarr.DT(op.dtype) == sarr.DT(dt))
                X = vec_content("x", sp, dt)
                step = a.fwd if mode == "matvec" else a.adj
                real = dt == "float64"
                pw = lambda k: (lambda d, j: D.leaf(f"pw{d}", [I(norm(I(k))), I(norm(I(j)))], real=real))
                x, parts = vector("x", sp, dt)
                before = [q.local_array.snapshot() for q in parts]
                c.mem["loop_hooks"] = {where: power_hook(c, where, sp, dt, p, X, pw, step, x)}
                y = returns(mode, lambda: getattr(op, mode)(x))
                if "power hook" in c.mem:
                    vector_is(f"{mode}: power", y, sp, pw(p), dt)
                elif c.valid(p == 0):
                    vector_is(f"{mode}: power 0", y, sp, X, dt)
                elif c.valid(p == 1):
                    vector_is(f"{mode}: power 1", y, sp, step(X), dt)
                else:
                    raise Unsupported("no loop over the exponent")
                for q, s in zip(parts, before):
                    unchanged("vector", q.local_array, s)
                if not stacked:
                    no_alias("result", y.local_array, x.local_array)


# ------------------------------------------------------------------ a serial operator applied to replicated vectors
for dt in ("float64", "complex128"):
    for how in ("MPILinearOperator", "asmpilinearoperator"):
        @unit(f"wrapped operator {how}[{dt}]", "C13 C05", [f"{M_}.__init__", f"{M_}._matvec", f"{M_}._rmatvec", f"{L_}.asmpilinearoperator"], assumes=("contract of the serial operator (module localop)",))
        def _(c, dt=dt, how=how):
            """every process holds the same serial operator and the same vector"""
            from ..localop import LocalOp
            rows, cols = Space(Replicated("m", 1)), Space(Replicated("n", 1))
            ent = entries("A", dt)
            op = LocalOp(rows.total, cols.total, lambda i, j: ent(0, i, 0, j), dt)
            L = lib()[L_]
            if how == "MPILinearOperator":
                O = returns("construction", lambda: L.MPILinearOperator(Op=op))
            else:
                O = returns("construction", lambda: L.asmpilinearoperator(op))
                holds("a distributed operator stays as it is", L.asmpilinearoperator(O) is O)
            a = matrix(rows, cols, ent)
            for der in DERIVED:
                check_op(der, DERIVED[der][0](O), DERIVED[der][1](a), dt)
