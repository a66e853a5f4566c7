"""C08: re-alignment of a scattered vector with the layout an operator wants, or an error"""
import z3
from ..spec import *
from .. import data as D

F_ = "pylops_mpi.utils.decorators.reshaped.decorator.wrapper"
A_ = "pylops_mpi.DistributedArray.DistributedArray"


class Got(Exception):
    pass


def vector_layout(tag, total):
    """arbitrary split of a vector of the given length"""
    c = ctx()
    lay = Layout.scatter(tag, 1, 0)
    c.fact(I(lay.dims[0]) == I(total))
    lay2 = Layout([I(total)], 0, lay.n, I(total), lay.S)
    lay2.raw = lay
    return lay2


def reshaped(**kw):
    return lib()["pylops_mpi.utils.decorators"].reshaped(**kw)


class Op:
    """what the decorator reads from an operator"""
    def __init__(self, c):
        self.rank, self.size = mk(c.r), mk(c.P)


def flat_of(lay, idx):
    """row-major position in the global array of a local multi-index"""
    g = lay.gidx(idx)
    return sarr.row_major(list(g), [I(d) for d in lay.dims])


for mode in ("stack forward", "stack adjoint", "dims 1", "dims 2", "dims 3"):
    for dt in ("float64", "complex128"):
        if dt != "float64" and mode not in ("stack forward", "dims 2"):
            continue

        @unit(f"reshaped {mode}[{dt}]", "C08 C05", [F_, f"{A_}.add_ghost_cells", f"{A_}.__init__", f"{A_}.__setitem__", f"{A_}.__getitem__", f"{A_}.ravel"], reach=("return", "raise"),
              assumes=("contract of local_split (units split.local, split.sum)", "contract of add_ghost_cells (units ghost ...)"))
        def _(c, mode=mode, dt=dt):
            m = DA()
            op = Op(c)
            nd = int(mode[-1]) if mode.startswith("dims") else 1
            tgt = Layout.scatter("t", nd, 0)
            total = sarr.prod_terms(tgt.dims)
            xl = vector_layout("x", I(norm(total)))
            if mode == "stack forward":
                kw = dict(forward=True, stacking=True)
                op.local_shapes_m = tgt.lshapes()
            elif mode == "stack adjoint":
                kw = dict(forward=False, stacking=True)
                op.local_shapes_n = tgt.lshapes()
            else:
                kw = {}
                op.dims = tgt.gshape()
            seen = []
            out_lay = Layout.scatter("y", 2, 0)

            def f(self, arr):
                holds("the operator itself is passed on", self is op)
                seen.append(arr)
                return make("y", out_lay, None, dt)
            g = reshaped(**kw)(f)
            x = make("x", xl, None, dt)
            before = x.local_array.snapshot()
            with use_split_layout(tgt), use_ghost_contract():
                y = attempt(lambda: g(op, x))
            if isinstance(y, Raised):
                reach("raise")
                holds("nothing is computed after an error", len(seen) == 0)
                unchanged("vector after the error", x.local_array, before)
                return
            reach("return")
            holds("the function is called once", len(seen) == 1)
            arr = seen[0]
            layout_is("re-aligned array", arr, tgt, m.Partition.SCATTER, dt, None, axis=0)
            X = content("x", xl, dt)
            array_is("re-aligned values", arr.local_array, tgt.local(), lambda idx: X((I(norm(flat_of(tgt, idx))),)), dt)
            unchanged("vector", x.local_array, before)
            no_alias("re-aligned array", arr.local_array, x.local_array)
            # the result: one-dimensional, the rows of this process in row-major order
            D1 = out_lay.dims[1]
            tuple_is("result: global shape", y.global_shape, (mk(I(norm(out_lay.dims[0] * D1))),))
            ln = I(norm(out_lay.n(c.r) * D1))
            tuple_is("result: local shape", y.local_shape, (mk(ln),))
            same_list("result: local shapes", y.local_shapes, SymList(I(c.P), lambda k: (mk(I(norm(out_lay.n(k) * D1))),)))
            holds("result: axis and partition", y.axis == 0 and y.partition is m.Partition.SCATTER)
            i, j = T.fresh("i"), T.fresh("j")
            fl = y.local_array.fn()
            with c.assuming(0 <= i, i < out_lay.n(c.r), 0 <= j, j < D1):
                if c.feasible():
                    eq_status("result: row-major order", fl((I(norm(i * D1 + j)),)), content("y", out_lay, dt)((I(norm(out_lay.S(c.r) + i)), j)))


@unit("reshaped error condition", "C08 C21", [F_], reach=("return", "raise"))
def _(c):
    """an error is raised on this process exactly if a neighbour needs more of its values than it owns or
    the vector is not scattered; vectors split like the operator are always accepted"""
    m = DA()
    op = Op(c)
    tgt = Layout.scatter("t", 1, 0)
    op.local_shapes_m = tgt.lshapes()
    g = reshaped(forward=True, stacking=True)(lambda self, arr: arr)
    for part in (m.Partition.BROADCAST, m.Partition.UNSAFE_BROADCAST):
        x = make("b", Replicated("b", 1, tgt.dims), part)
        must_raise("replicated vector", lambda: g(op, x))
    x = make("x", tgt, None)
    y = returns("aligned vector", lambda: g(op, x))
    array_is("aligned vector", y.local_array, tgt.local(), lambda idx: content("x", tgt)(tgt.gidx(idx)))
    z = make("x", vector_layout("z", tgt.dims[0]), None)
    zl = Layout.scatter("z", 1, 0)
    r = attempt(lambda: g(op, z))
    nxt, prv = I(norm(c.r + 1)), I(norm(c.r - 1))
    dif = lambda k: I(norm(tgt.S(k) - zl.S(k)))       # shift of the start of process k
    short = z3.Or(z3.And(c.r < c.P - 1, -dif(nxt) > zl.n(c.r)), z3.And(c.r > 0, dif(c.r) > zl.n(c.r)))
    if isinstance(r, Raised):
        holds("error only if a neighbour needs more than this process owns", short, {"what": repr(r)})
    else:
        holds("no result if a neighbour needs more than this process owns", z3.Not(short))
