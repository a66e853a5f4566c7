"""C01, C02: splitting, gathering"""
import z3
from ..spec import *
from .. import engine

P_ = "pylops_mpi.DistributedArray"


def parts():
    m = DA()
    return m.Partition.SCATTER, m.Partition.BROADCAST, m.Partition.UNSAFE_BROADCAST


for nd in (1, 2, 3):
    for ax in range(nd):
        @unit(f"split.local[{nd}d,axis{ax}]", "C01", f"{P_}.local_split")
        def _(c, nd=nd, ax=ax):
            m = DA()
            dims = [dim(f"N{j}", 0) for j in range(nd)]
            gs = tuple(mk(d) for d in dims)
            for part in parts():
                res = returns("local_split", lambda: m.local_split(gs, loader.WORLD, part, ax))
                if part is m.Partition.SCATTER:
                    want = [balanced(d, c.P, c.r) if j == ax else d for j, d in enumerate(dims)]
                else:
                    want = dims
                tuple_is(f"local_split {part.value}", res, want)


@unit("split.sum", "C01", f"{P_}.local_split")
def _(c):
    """lemma: the balanced shares are non-negative, monotone, differ by at most one and add up to N
    (closed form of their prefix sums, by induction on the rank)"""
    N = dim("N", 0)
    k, l = z3.Int("k"), z3.Int("l")
    c.fact(0 <= k, k < c.P, 0 <= l, l < c.P)
    sh = lambda t: balanced(N, c.P, t)
    pre = lambda t: balanced_prefix(N, c.P, t)
    c.oblige("share is non-negative", sh(k) >= 0)
    c.oblige("prefix sum base", pre(z3.IntVal(0)) == 0)
    c.oblige("prefix sum step", pre(k + 1) == pre(k) + sh(k))
    c.oblige("shares add up", pre(c.P) == N)
    c.oblige("shares differ by at most one, larger first", z3.Implies(k <= l, z3.And(sh(k) >= sh(l), sh(k) <= sh(l) + 1)))
    reach("return")


for nd, ax in ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2)):
    @unit(f"init.default[{nd}d,axis{ax}]", "C01", f"{P_}.DistributedArray.__init__ {P_}.local_split")
    def _(c, nd=nd, ax=ax):
        m = DA()
        dims = [dim(f"N{j}", 0 if j == ax else 1) for j in range(nd)]
        gs = tuple(mk(d) for d in dims)
        for part in parts():
            a = returns("DistributedArray()", lambda: m.DistributedArray(global_shape=gs, partition=part, axis=ax))
            if part is m.Partition.SCATTER:
                lay = Layout.even(dims[ax], nd, ax, dims=[d for d in dims])
            else:
                lay = Replicated("R", nd, dims)
            layout_is(f"default layout {part.value}", a, lay, part, "float64", None, axis=ax)
            tuple_is(f"local array {part.value}", a.local_array.shape, lay.local())
            same_list(f"local_shapes {part.value}", a.local_shapes, lay.lshapes())
            holds("number of dimensions", a.ndim == nd)
        if nd == 1:
            a = returns("DistributedArray(int)", lambda: m.DistributedArray(global_shape=gs[0]))
            layout_is("default layout int", a, Layout.even(dims[0], 1, 0, dims=[dims[0]]), m.Partition.SCATTER, "float64", None)

    @unit(f"init.shapes[{nd}d,axis{ax}]", "C01", f"{P_}.DistributedArray.__init__ {P_}.DistributedArray._check_local_shapes")
    def _(c, nd=nd, ax=ax):
        """explicit shapes that tile are used as they are"""
        m = DA()
        lay = Layout.scatter("a", nd, ax)
        a = returns("DistributedArray(local_shapes)", lambda: m.DistributedArray(global_shape=lay.gshape(), axis=ax, local_shapes=lay.lshapes()))
        layout_is("given layout", a, lay, m.Partition.SCATTER, "float64", None)
        tuple_is("local array", a.local_array.shape, lay.local())
        same_list("local_shapes", a.local_shapes, lay.lshapes())
        rep = Replicated("b", nd)
        for part in parts()[1:]:
            a = returns("DistributedArray(local_shapes)", lambda: m.DistributedArray(global_shape=rep.gshape(), partition=part, axis=ax, local_shapes=rep.lshapes()))
            layout_is("given replicated layout", a, rep, part, "float64", None, axis=ax)

    @unit(f"init.reject[{nd}d,axis{ax}]", "C01 C21", f"{P_}.DistributedArray.__init__ {P_}.DistributedArray._check_local_shapes", reach=("return", "raise"))
    def _(c, nd=nd, ax=ax):
        """shapes are accepted on a process only if the extents add up and its other dimensions agree"""
        m = DA()
        f = [z3.Function(f"m{j}", z3.IntSort(), z3.IntSort()) for j in range(nd)]
        for g in f:
            c.rank_facts.append(lambda k, g=g: g(k) >= 0)
            c.rank_terms_decls.add(g.name())
        dims = [dim(f"N{j}", 0) for j in range(nd)]
        ls = SymList(I(c.P), lambda k: tuple(mk(g(k)) for g in f))
        base = V.get_base(lambda k: f[ax](I(k)), c.P)
        tot = I(base.at(c.P))
        good = z3.And(tot == dims[ax], *[f[j](c.r) == dims[j] for j in range(nd) if j != ax])
        r = attempt(lambda: m.DistributedArray(global_shape=tuple(mk(d) for d in dims), axis=ax, local_shapes=ls))
        if isinstance(r, Raised):
            reach("raise")
            holds("rejected only if the shapes do not tile", z3.Not(good))
        else:
            reach("return")
            holds("accepted only if the shapes tile", good)


# ------------------------------------------------------------------ C02
def case_layouts(nd, ax):
    m = DA()
    return m


for nd, ax in ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2)):
    for dt in ("float64", "complex128"):
        if dt != "float64" and nd == 3:
            continue

        @unit(f"to_dist.shapes[{nd}d,axis{ax},{dt}]", "C02 C05", f"{P_}.DistributedArray.to_dist {P_}.DistributedArray.asarray {P_}.DistributedArray.__init__ {P_}.DistributedArray.__setitem__")
        def _(c, nd=nd, ax=ax, dt=dt):
            """scatter with arbitrary tiling shapes: every process holds its contiguous block; gathering gives the array back"""
            m = DA()
            lay = Layout.scatter("a", nd, ax)
            x = sarr.leaf_array("x", lay.dims, dt)
            g = content("x", lay, dt)
            before = x.snapshot()
            a = returns("to_dist", lambda: m.DistributedArray.to_dist(x, axis=ax, local_shapes=lay.lshapes()))
            layout_is("to_dist", a, lay, m.Partition.SCATTER, dt, None)
            array_is("local block", a.local_array, lay.local(), lambda idx: g(lay.gidx(idx)), dt)
            y = returns("asarray", lambda: a.asarray())
            array_is("gathered array", y, lay.gshape(), lambda idx: g(idx), dt)
            unchanged("input", x, before)
            no_alias("distributed array", a.local_array, x)
            array_is("local block after gathering", a.local_array, lay.local(), lambda idx: g(lay.gidx(idx)), dt)

        @unit(f"to_dist.even[{nd}d,axis{ax},{dt}]", "C02 C05", f"{P_}.DistributedArray.to_dist {P_}.DistributedArray.asarray {P_}.DistributedArray.__init__ {P_}.DistributedArray.__setitem__",
              assumes=("contract of local_split (unit split.local)",))
        def _(c, nd=nd, ax=ax, dt=dt):
            m = DA()
            dims = [dim(f"N{j}", 0 if j == ax else 1) for j in range(nd)]
            lay = Layout.even(dims[ax], nd, ax, dims=dims)
            x = sarr.leaf_array("x", dims, dt)
            g = content("x", lay, dt)
            with use_split_contract():
                a = returns("to_dist", lambda: m.DistributedArray.to_dist(x, axis=ax))
                layout_is("to_dist", a, lay, m.Partition.SCATTER, dt, None)
                no_alias("distributed array", a.local_array, x)
                array_is("local block", a.local_array, lay.local(), lambda idx: g(lay.gidx(idx)), dt)
                y = returns("asarray", lambda: a.asarray())
                array_is("gathered array", y, lay.gshape(), lambda idx: g(idx), dt)

        @unit(f"to_dist.replicated[{nd}d,axis{ax},{dt}]", "C02 C05", f"{P_}.DistributedArray.to_dist {P_}.DistributedArray.asarray {P_}.DistributedArray.__init__ {P_}.DistributedArray.__setitem__")
        def _(c, nd=nd, ax=ax, dt=dt):
            m = DA()
            rep = Replicated("b", nd)
            x = sarr.leaf_array("x", rep.dims, dt)
            g = content("x", rep, dt)
            for part in parts()[1:]:
                for ls in (None, rep.lshapes()):
                    a = returns("to_dist", lambda: m.DistributedArray.to_dist(x, partition=part, axis=ax, local_shapes=ls))
                    layout_is("to_dist", a, rep, part, dt, None, axis=ax)
                    no_alias("distributed array", a.local_array, x)
                    array_is("local block", a.local_array, rep.local(), lambda idx: g(idx), dt)
                    y = returns("asarray", lambda: a.asarray())
                    array_is("gathered array", y, rep.gshape(), lambda idx: g(idx), dt)
