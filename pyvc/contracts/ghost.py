"""C07 (and C05, C19): neighbour exchange"""
import z3
from ..spec import *
from .array_ops import A_, SHAPES


def amounts(c, tag):
    f = z3.Function(tag, z3.IntSort(), z3.IntSort())
    if ("am", tag) not in c.mem:
        c.mem[("am", tag)] = True
        c.rank_facts.append(lambda k: f(k) >= 0)
        c.rank_terms_decls.add(f.name())
    return lambda k: f(I(k))


def ghost_ok(c, nm, res, lay, x, fr, bk, dt):
    """result of add_ghost_cells: the global values from fr before to bk behind the own block"""
    r, P = c.r, c.P
    fr0 = z3.If(r > 0, fr, 0) if fr is not None else z3.IntVal(0)
    bk0 = z3.If(r < P - 1, bk, 0) if bk is not None else z3.IntVal(0)
    shape = [I(norm(fr0 + I(n) + bk0)) if j == lay.axis else I(n) for j, n in enumerate(lay.local())]

    def want(idx):
        g = [I(t) for t in idx]
        if c.fork(r > 0) and fr is not None:
            off = fr
        else:
            off = z3.IntVal(0)
        g[lay.axis] = I(norm(lay.S(r) - off + g[lay.axis]))
        return x(tuple(g))
    array_is(nm, res, [mk(s) for s in shape], want, dt)


for nd, ax in SHAPES:
    for mode in ("front", "back", "both"):
        for dt in ("float64", "complex128"):
            if dt != "float64" and (nd, mode) != (1, "both"):
                continue

            @unit(f"ghost {mode}[{nd}d,axis{ax},{dt}]", "C07 C05", [f"{A_}.add_ghost_cells"], reach=("return", "raise"))
            def _(c, nd=nd, ax=ax, mode=mode, dt=dt):
                lay = Layout.scatter("a", nd, ax)
                x = content("x", lay, dt)
                F = amounts(c, "front") if mode != "back" else None
                G = amounts(c, "back") if mode != "front" else None
                a = make("x", lay, None, dt)
                before = a.local_array.snapshot()
                r, P = c.r, c.P
                res = attempt(lambda: a.add_ghost_cells(cells_front=mk(F(r)) if F else None, cells_back=mk(G(r)) if G else None))
                short = []
                if F:
                    short.append(z3.And(r < P - 1, F(I(norm(r + 1))) > lay.n(r)))
                if G:
                    short.append(z3.And(r > 0, G(I(norm(r - 1))) > lay.n(r)))
                short = z3.Or(*short)
                if isinstance(res, Raised):
                    reach("raise")
                    holds("error only if a neighbour asks for more than this process owns", short, {"what": repr(res)})
                    unchanged("array after the error", a.local_array, before)
                    return
                reach("return")
                holds("no result if a neighbour asks for more than this process owns", z3.Not(short))
                if F:
                    holds("the previous process owns the values in front", z3.Implies(r > 0, F(r) <= lay.n(I(norm(r - 1)))))
                if G:
                    holds("the next process owns the values behind", z3.Implies(r < P - 1, G(r) <= lay.n(I(norm(r + 1)))))
                ghost_ok(c, "ghosted block", res, lay, x, F(r) if F else None, G(r) if G else None, dt)
                unchanged("array", a.local_array, before)
                no_alias("ghosted block", res, a.local_array)
