"""C21: incompatible operands are rejected before anything is changed"""
import z3
from ..spec import *
from .array_ops import A_, SHAPES

OPS = {
    "add": ("__add__ add", lambda a, b: a + b, False),
    "sub": ("__sub__ __neg__ add", lambda a, b: a - b, False),
    "mul": ("__mul__ multiply", lambda a, b: a * b, False),
    "iadd": ("__iadd__ iadd", lambda a, b: a.__iadd__(b), True),
    "isub": ("__isub__ __neg__ iadd", lambda a, b: a.__isub__(b), True),
    "dot": ("dot", lambda a, b: a.dot(b), None),
}


def fns(names):
    return [f"{A_}.{x}" for x in (names + " _check_partition_shape _check_mask").split()]


def same_mask(ma, mb):
    """(condition at a fresh rank, universal assumption)"""
    return lambda k: B(V.values_equal(ma.fn(k), mb.fn(k)))


for nd, ax in SHAPES[:3]:
    for op, (names, f, inplace) in OPS.items():
        @unit(f"reject partition {op}[{nd}d,axis{ax}]", "C21", fns(names), reach=("raise",))
        def _(c, nd=nd, ax=ax, op=op, f=f):
            m = DA()
            S, Bc, U = m.Partition.SCATTER, m.Partition.BROADCAST, m.Partition.UNSAFE_BROADCAST
            lay = Layout.scatter("a", nd, ax)
            rep = Replicated("b", nd, lay.dims)
            rep.axis = ax
            for pa, pb in ((S, Bc), (S, U), (Bc, S), (U, S), (Bc, U), (U, Bc)):
                a = make("x", lay if pa is S else rep, pa)
                b = make("y", lay if pb is S else rep, pb)
                ba, bb = a.local_array.snapshot(), b.local_array.snapshot()
                must_raise(f"{op} of {pa.value} and {pb.value}", lambda: f(a, b))
                unchanged(f"{op} rejected: left operand", a.local_array, ba)
                unchanged(f"{op} rejected: right operand", b.local_array, bb)

        for rep_ in (False, True):
            @unit(f"reject shape {op}[{nd}d,axis{ax},{'replicated' if rep_ else 'scattered'}]", "C21", fns(names), reach=("return", "raise"))
            def _(c, nd=nd, ax=ax, op=op, f=f, rep_=rep_, inplace=inplace):
                m = DA()
                if rep_:
                    la, lb = Replicated("a", nd), Replicated("b", nd)
                    parts = (m.Partition.BROADCAST, m.Partition.UNSAFE_BROADCAST)
                else:
                    la, lb = Layout.scatter("a", nd, ax), Layout.scatter("b", nd, ax)
                    parts = (m.Partition.SCATTER,)
                for part in parts:
                    a, b = make("x", la, part), make("y", lb, part)
                    ba, bb = a.local_array.snapshot(), b.local_array.snapshot()
                    same = z3.And(*[I(p) == I(q) for p, q in zip(la.local(), lb.local())])
                    # decide first on which side of the contract this process is
                    if op == "dot" and rep_:
                        # the accepting side is the subject of C06
                        c.assume(z3.Not(same))
                        reach("return")
                    if c.fork(same):
                        returns(f"{op} accepts equal shapes", lambda: f(a, b))
                        if not inplace:
                            unchanged(f"{op}: left operand", a.local_array, ba)
                    else:
                        must_raise(f"{op} of different shapes", lambda: f(a, b))
                        unchanged(f"{op} rejected: left operand", a.local_array, ba)
                    unchanged(f"{op}: right operand", b.local_array, bb)

        @unit(f"reject mask {op}[{nd}d,axis{ax}]", "C21", fns(names), reach=("return", "raise"))
        def _(c, nd=nd, ax=ax, op=op, f=f):
            m = DA()
            lay = Layout.scatter("a", nd, ax)
            ma, mb = mask_list("mask_a"), mask_list("mask_b")
            a, b, n = make("x", lay, None, mask=ma), make("y", lay, None, mask=mb), make("z", lay, None)
            ba, bb, bn = a.local_array.snapshot(), b.local_array.snapshot(), n.local_array.snapshot()
            must_raise(f"{op} of masked and unmasked", lambda: f(a, n))
            must_raise(f"{op} of unmasked and masked", lambda: f(n, b))
            eq = same_mask(ma, mb)
            r = attempt(lambda: f(a, b))
            if isinstance(r, Raised):
                reach("raise")
                c.rank_facts.append(eq)
                holds(f"{op} rejected only if the masks differ", z3.BoolVal(False))
                c.rank_facts.pop()
                unchanged(f"{op} rejected: left operand", a.local_array, ba)
            else:
                reach("return")
                k = T.fresh("k")
                with c.assuming(k >= 0, k < c.P):
                    c.oblige(f"{op} accepted only if the masks agree", eq(k))
            unchanged(f"{op}: right operand", b.local_array, bb)
            unchanged(f"{op}: unmasked operand", n.local_array, bn)


# ------------------------------------------------------------------ operators applied to vectors of the wrong length
L_ = "pylops_mpi.LinearOperator"


@unit("matvec dimension", "C21 C13", [f"{L_}.MPILinearOperator.matvec", f"{L_}.MPILinearOperator.rmatvec", f"{L_}.MPILinearOperator.dot"], reach=("return", "raise"))
def _(c):
    m = lib()[L_]
    M, N, n = dim("M", 0), dim("N", 0), dim("n", 0)

    class Op(m.MPILinearOperator):
        def _matvec(self, x):
            calls.append("matvec")
            return x

        def _rmatvec(self, x):
            calls.append("rmatvec")
            return x
    calls = []
    op = Op(shape=(mk(M), mk(N)), dtype=sarr.DT("float64"))
    for part, lay in ((DA().Partition.BROADCAST, Replicated("v", 1, [n])), (DA().Partition.SCATTER, Layout.even(n, 1, 0, dims=[n]))):
        x = make("x", lay, part)
        for nm, f, ext in (("matvec", lambda: op.matvec(x), N), ("rmatvec", lambda: op.rmatvec(x), M), ("dot", lambda: op.dot(x), N), ("@", lambda: op @ x, N)):
            calls.clear()
            if c.fork(n == ext):
                returns(f"{nm} of a vector of the right length", f)
                holds(f"{nm} applies the operator once", len(calls) == 1)
            else:
                must_raise(f"{nm} of a vector of another length", f)
                holds(f"{nm} rejects before applying", len(calls) == 0)
    for nd in (2, 3):
        y = make("y", Replicated(f"w{nd}", nd), DA().Partition.BROADCAST)
        must_raise("matvec of an array", lambda: op.matvec(y))
        must_raise("rmatvec of an array", lambda: op.rmatvec(y))
        must_raise("dot of an array", lambda: op.dot(y))


@unit("operator shapes", "C21 C13", [f"{L_}._ProductLinearOperator.__init__", f"{L_}._SumLinearOperator.__init__", f"{L_}._PowerLinearOperator.__init__", f"{L_}.MPILinearOperator.__matmul__", f"{L_}.MPILinearOperator.__rmatmul__"], reach=("return", "raise"))
def _(c):
    m = lib()[L_]
    d = [dim(n, 0) for n in ("M", "N", "K", "L")]
    op = lambda i, j: m.MPILinearOperator(shape=(mk(d[i]), mk(d[j])), dtype=sarr.DT("float64"))
    A, Bo = op(0, 1), op(2, 3)
    pw = dim("p", 0)
    for nm, f, ok, shape in (("product", lambda: A * Bo, d[1] == d[2], (d[0], d[3])),
                             ("product @", lambda: A @ Bo, d[1] == d[2], (d[0], d[3])),
                             ("sum", lambda: A + Bo, z3.And(d[0] == d[2], d[1] == d[3]), (d[0], d[1])),
                             ("difference", lambda: A - Bo, z3.And(d[0] == d[2], d[1] == d[3]), (d[0], d[1])),
                             ("power", lambda: A ** mk(pw), d[0] == d[1], (d[0], d[1])),
                             ("zeroth power", lambda: A ** 0, d[0] == d[1], (d[0], d[1])),
                             ("first power", lambda: A ** 1, d[0] == d[1], (d[0], d[1])),
                             ("second power", lambda: A ** 2, d[0] == d[1], (d[0], d[1]))):
        if c.fork(ok):
            r = returns(f"{nm} of compatible operators", f)
            tuple_is(f"{nm}: shape", r.shape, shape)
        else:
            must_raise(f"{nm} of incompatible operators", f)
    sq = op(0, 0)
    must_raise("negative power", lambda: sq ** -1)
    must_raise("any negative power", lambda: sq ** mk(I(norm(-1 - pw))))
    must_raise("fractional power", lambda: sq ** 1.5)
    must_raise("matmul with a scalar", lambda: sq @ 2)
    must_raise("rmatmul with a scalar", lambda: 2 @ sq)
    must_raise("sum with a number", lambda: sq + 1)
