"""C22: arrays on a sub-communicator.

The contracts of the array operations are checked once more for arrays that live on a communicator other
than the world: the world then has a rank and a size of its own (unrelated to those of the array), any
collective or message on it is refuted, and results must name the communicator of the operands."""
from .. import spec
from ..spec import *

P_ = "pylops_mpi.DistributedArray"
A_ = P_ + ".DistributedArray"
PICK = ("[1d,axis0,float64]", "[2d,axis1,float64]", "[1d,axis0]", "[2d,axis1]", "[1d,axis0,complex128]")
HEADS = ("neg[", "conj[", "copy[", "zeros_like[", "binary ", "scalar mul[", "inplace ", "ravel[", "setitem", "ghost ", "dot ", "norm ")


def twin(u):
    def fn(c):
        on_subcommunicator(c)
        u.fn(c)
    spec.UNITS.append(spec.Unit("sub " + u.name, ("C22",), fn, u.functions, u.reach, u.opts, u.assumes))


for u in list(spec.UNITS):
    if u.name.startswith(HEADS) and u.name.endswith(PICK) and not (u.name.endswith("complex128]") and not u.name.startswith(("conj", "dot"))):
        if u.name.startswith("norm ") and u.name.split()[1] in ("None", "3", "0"):
            continue
        twin(u)


for nd, ax in ((1, 0), (2, 0), (2, 1)):
    @unit(f"sub to_dist[{nd}d,axis{ax}]", "C22", [f"{A_}.__init__", f"{A_}.to_dist", f"{A_}.asarray", f"{A_}.local_shapes", f"{P_}.local_split"])
    def _(c, nd=nd, ax=ax):
        on_subcommunicator(c)
        m = DA()
        comm = the_comm()
        lay = Layout.scatter("a", nd, ax)
        x = sarr.leaf_array("x", lay.dims, "float64")
        g = content("x", lay)
        a = returns("to_dist", lambda: m.DistributedArray.to_dist(x, base_comm=comm, axis=ax, local_shapes=lay.lshapes()))
        layout_is("to_dist", a, lay, m.Partition.SCATTER, "float64", None)
        array_is("local block", a.local_array, lay.local(), lambda idx: g(lay.gidx(idx)))
        y = returns("asarray", lambda: a.asarray())
        array_is("gathered array", y, lay.gshape(), lambda idx: g(idx))
        same_list("local shapes", a.local_shapes, lay.lshapes())

    @unit(f"sub to_dist replicated[{nd}d,axis{ax}]", "C22", [f"{A_}.__init__", f"{A_}.to_dist", f"{A_}.asarray", f"{A_}.local_shapes", f"{P_}.local_split"])
    def _(c, nd=nd, ax=ax):
        on_subcommunicator(c)
        m = DA()
        comm = the_comm()
        rep = Replicated("r", nd)
        x = sarr.leaf_array("x", rep.dims, "float64")
        g = content("x", rep)
        for part in (m.Partition.BROADCAST, m.Partition.UNSAFE_BROADCAST):
            b = returns("to_dist replicated", lambda: m.DistributedArray.to_dist(x, base_comm=comm, partition=part, axis=ax))
            layout_is("to_dist replicated", b, rep, part, "float64", None, axis=ax)
            y = returns("asarray", lambda: b.asarray())
            array_is("replicated array", y, rep.gshape(), lambda idx: g(idx))


@unit("sub init", "C22", [f"{A_}.__init__", f"{A_}.local_shapes", f"{P_}.local_split"])
def _(c):
    on_subcommunicator(c)
    m = DA()
    comm = the_comm()
    N = dim("N", 0)
    lay = Layout.even(N, 1, 0, dims=[N])
    a = returns("init", lambda: m.DistributedArray(global_shape=mk(N), base_comm=comm))
    layout_is("default layout", a, lay, m.Partition.SCATTER, "float64", None)
    same_list("default local shapes", a.local_shapes, lay.lshapes())
    mask = mask_list()
    a = returns("init mask", lambda: m.DistributedArray(global_shape=mk(N), base_comm=comm, mask=mask))
    layout_is("masked layout", a, lay, m.Partition.SCATTER, "float64", mask)
