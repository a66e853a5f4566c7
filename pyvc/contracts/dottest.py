"""C20: the adjoint test accepts exactly the operators that satisfy it.

The operator is an abstract one whose forward and adjoint applications are unrelated; closeness is a predicate of the two
numbers compared and of the tolerances, and the contract says of which numbers it has to be asked."""
import z3
from ..spec import *
from ..absop import *
from .. import data as D

M_ = "pylops_mpi.utils.dottest"


def dot(n, f, g):
    return D.bind("sum", [n], lambda v: f(v[0]).conj() * g(v[0]))


def spaces(kind):
    if kind == "scatter":
        return [Space(Layout.scatter(t, 1, 0)) for t in ("a", "b")]
    if kind == "replicated":
        return [Space(Layout.scatter("a", 1, 0)), Space(Replicated("b", 1))]
    return [Space(Layout.scatter("a", 1, 0), Layout.scatter("b", 1, 0)), Space(Layout.scatter("d", 1, 0), Replicated("e", 1))]


def products(rows, cols, a, du, dv):
    U, V_ = vec_content("u", cols, du), vec_content("v", rows, dv)
    Y, X = a.fwd(U), a.adj(V_)
    yy, xx = D.Poly(), D.Poly()
    for d, l in enumerate(rows.lays):
        yy = yy + dot(l.dims[0], lambda i, d=d: Y(d, i), lambda i, d=d: V_(d, i))
    for d, l in enumerate(cols.lays):
        xx = xx + dot(l.dims[0], lambda i, d=d: U(d, i), lambda i, d=d: X(d, i))
    return yy, xx


def asked(c, yy, xx, rtol, atol):
    """the verdict the test has to be based on: is the one product close to the other one?"""
    good = []
    for b, p, q, rt, at in c.mem.get("isclose", {}).values():
        same = lambda s, t: D.prove_eq(s, t)[0] == "proved"
        if same(rt, rtol) and same(at, atol) and any(same(p, s) and same(q, t) for s, t in ((xx, yy), (yy, xx), (xx.conj(), yy.conj()), (yy.conj(), xx.conj()))):
            good.append(b)
    return good


def settle(c, yy, xx, rtol, atol):
    """exactly one comparison, of the two inner products with the tolerances given, the same on every process"""
    log = list(c.mem.get("isclose", {}).values())
    holds("one comparison", len(log) == 1, {"what": f"{len(log)} comparisons"})
    if len(log) != 1:
        raise PathEnd()
    b, p, q, rt, at = log[0]
    for nm, v in (("left", p), ("right", q), ("relative tolerance", rt), ("absolute tolerance", at)):
        holds(f"{nm}: the same on every process", not v.mentions(c.r), {"what": repr(v)[:200]})
    eq_status("relative tolerance", rt, rtol)
    eq_status("absolute tolerance", at, atol)
    # either of the products may be the reference, and both may be conjugated
    pairs = [(xx, yy), (yy, xx), (xx.conj(), yy.conj()), (yy.conj(), xx.conj())]
    for s, t in pairs[1:]:
        if D.prove_eq(p, s)[0] == "proved" and D.prove_eq(q, t)[0] == "proved":
            eq_status("left inner product", p, s)
            eq_status("right inner product", q, t)
            return b
    eq_status("left inner product", p, pairs[0][0])
    eq_status("right inner product", q, pairs[0][1])
    return b


for kind in ("scatter", "replicated", "stacked"):
    for dt, du in (("float64", "float64"), ("complex128", "complex128"), ("complex128", "float64")):
        if kind != "scatter" and dt == "float64":
            continue
        for raising in (True, False, None):
            for verb in (False, True):
                if verb and (kind != "scatter" or raising is None):
                    continue

                @unit(f"dottest [{kind},{dt},{du},raise={raising},verb={verb}]", "C20", [f"{M_}.dottest"], reach=("accepted", "refused" if raising is False else "error"),
                      assumes=("contract of the operator (module absop)", "np.isclose(a, b, rtol, atol) decides |a-b| <= atol + rtol |b|"))
                def _(c, kind=kind, dt=dt, du=du, raising=raising, verb=verb):
                    mod = lib()[M_]
                    cols, rows = spaces(kind)
                    A, a = abstract("A", rows, cols, dt, adjoint="B")
                    u, up = vector("u", cols, du)
                    v, vp = vector("v", rows, du)
                    before = [x.local_array.snapshot() for x in up + vp]
                    yy, xx = products(rows, cols, a, du, du)
                    kw = {}
                    if raising is None:
                        # default arguments
                        rtol, atol, raising_ = D.const(1e-6), D.const(1e-21), True
                    else:
                        rtol, atol, raising_ = D.leaf("rtol"), D.leaf("atol"), raising
                        kw = dict(rtol=SNum(rtol), atol=SNum(atol), raiseerror=raising, verb=verb)
                    if verb:
                        kw.update(nr=A.shape[0], nc=A.shape[1])
                    res = attempt(lambda: mod.dottest(A, u, v, **kw))
                    b = settle(c, yy, xx, rtol, atol)
                    if isinstance(res, Raised):
                        reach("error")
                        holds("an error is raised only on request", raising_)
                        holds("kind of error", isinstance(res.e, AssertionError), {"what": type(res.e).__name__})
                        holds("an error is raised only if the products differ", mkb(z3.Not(b)))
                        return
                    ok = res if isinstance(res, (bool, SBool)) else None
                    holds("verdict", ok is not None, {"what": type(res).__name__})
                    if ok is None:
                        raise PathEnd()
                    if c.fork(B(ok)):
                        reach("accepted")
                        holds("accepted only if the products agree", mkb(b))
                    else:
                        reach("refused")
                        holds("refused only if the products differ", mkb(z3.Not(b)))
                        holds("an error is raised on request and by default", not raising_)
                    for j, (x, s) in enumerate(zip(up + vp, before)):
                        unchanged(f"vector[{j}]", x.local_array, s)


@unit("dottest dimensions", "C20 C21", [f"{M_}.dottest"], reach=("raise", "accepted"))
def _(c):
    mod = lib()[M_]
    cols, rows = spaces("scatter")
    A, a = abstract("A", rows, cols)
    u, _ = vector("u", cols)
    v, _ = vector("v", rows)
    nr, nc = mk(z3.Int("nr")), mk(z3.Int("nc"))
    for kw in (dict(nr=nr), dict(nc=nc), dict(nr=nr, nc=nc)):
        bad = z3.Or(I(kw.get("nr", mk(rows.total))) != rows.total, I(kw.get("nc", mk(cols.total))) != cols.total)
        if c.fork(bad):
            must_raise("other dimensions than those of the operator", lambda: mod.dottest(A, u, v, raiseerror=False, **kw))
        else:
            reach("accepted")
            c.mem["isclose"] = {}
            returns("dimensions of the operator", lambda: mod.dottest(A, u, v, raiseerror=False, **kw))


for what in ("model", "data"):
    @unit(f"dottest length of the {what}", "C20 C21", [f"{M_}.dottest"], reach=("raise",))
    def _(c, what=what):
        mod = lib()[M_]
        cols, rows = spaces("scatter")
        A, a = abstract("A", rows, cols)
        bad = Space(Layout.scatter("z", 1, 0))
        c.assume(bad.total != (cols if what == "model" else rows).total)
        u, _ = vector("u", bad if what == "model" else cols)
        v, _ = vector("v", bad if what == "data" else rows)
        must_raise("vector of another length", lambda: mod.dottest(A, u, v, raiseerror=False))
