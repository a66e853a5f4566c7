"""C17, C18: conjugate gradient and least-squares conjugate gradient.

setup establishes the invariant, every step preserves it (arbitrary state, arbitrary operator), the loop runs steps exactly
while the iteration limit is not reached and the squared norm exceeds the tolerance, solve and the functional interface
combine them."""
import z3
from ..spec import *
from ..absop import *
from .. import data as D

B_ = "pylops_mpi.optimization.cls_basic"
F_ = "pylops_mpi.optimization.basic"


def solver_spaces(kind):
    if kind == "scatter":
        return Space(Layout.scatter("a", 1, 0)), Space(Layout.scatter("b", 1, 0))
    if kind == "replicated":
        return Space(Replicated("a", 1)), Space(Replicated("b", 1))
    return Space(Layout.scatter("a", 1, 0), Layout.scatter("b", 1, 0)), Space(Layout.scatter("d", 1, 0), Layout.scatter("e", 1, 0))


KINDS = [(k, dt) for k in ("scatter", "stacked") for dt in ("float64", "complex128")]
SHOWN = [(k, dt, False) for k, dt in KINDS] + [("scatter", "complex128", True), ("stacked", "float64", True)]


def square(sp, X):
    """squared norm of the global vector (and of each of its components)"""
    out = D.Poly()
    for d, lay in enumerate(sp.lays):
        out = out + D.declare_nonneg(D.bind("sum", [lay.dims[0]], lambda vs, d=d: X(d, vs[0]).conj() * X(d, vs[0])))
    return D.declare_nonneg(out)


def inner(sp, X, Y):
    """sum over the global vector of conj(X) Y"""
    out = D.Poly()
    for d, lay in enumerate(sp.lays):
        out = out + D.bind("sum", [lay.dims[0]], lambda vs, d=d: X(d, vs[0]).conj() * Y(d, vs[0]))
    return out


def lin(*terms):
    """linear combination of contents"""
    def f(d, i):
        out = D.Poly()
        for s, X in terms:
            out = out + s * X(d, i)
        return out
    return f


ONE, MINUS = D.const(1), D.const(-1)


def set_content(v, sp, want, dt):
    for d, (lay, q) in enumerate(zip(sp.lays, components(v))):
        q.local_array._assign(sarr.new_array([I(t) for t in lay.local()], lambda idx, d=d, lay=lay: want(d, lay.gidx(idx)[0]), dt))
    return v


def vec(name, sp, dt, want=None):
    v, parts = vector(name, sp, dt)
    if want is not None:
        set_content(v, sp, want, dt)
    return v


class Frame:
    """vectors that must stay as they are, vectors that must not share storage"""

    def __init__(self, **vs):
        self.vs = vs
        self.snaps = {n: [q.local_array.snapshot() for q in components(v)] for n, v in vs.items()}

    def check(self, nm):
        for n, v in self.vs.items():
            for q, s in zip(components(v), self.snaps[n]):
                unchanged(f"{nm}: {n}", q.local_array, s)


def separate(nm, **vs):
    names = list(vs)
    for i, a in enumerate(names):
        for b in names[:i]:
            for p in components(vs[a]):
                for q in components(vs[b]):
                    no_alias(f"{nm}: {a} and {b}", p.local_array, q.local_array)


def positive(name):
    """a positive real number"""
    p = D.leaf(name, real=True)
    q = p * p
    return q


def history(name, n):
    """list of n entries"""
    tl = loader.mklist([]) if hasattr(loader, "mklist") else TList()
    tl.sym = SymList(I(n), lambda k: SNum(D.leaf(name, [I(norm(I(k)))], real=True), "float64"))
    return tl


def entry(lst, k):
    s = lst.sym if isinstance(lst, TList) and lst.sym is not None else lst
    return SNum.of(s.fn(I(k)) if isinstance(s, SymList) else s[k]).p


def hist_is(nm, lst, n, name, last):
    """lst has n+1 entries: the n old ones and a new one"""
    s = lst.sym if isinstance(lst, TList) else lst
    holds(f"{nm}: a list", isinstance(s, SymList))
    c = ctx()
    c.oblige(f"{nm}: one more entry", s.length == I(norm(I(n) + 1)))
    k = T.fresh("k")
    with c.assuming(k >= 0, k < I(n)):
        eq_status(f"{nm}: earlier entries", SNum.of(s.fn(k)).p, D.leaf(name, [k], real=True))
    eq_status(f"{nm}: new entry", SNum.of(s.fn(I(n))).p, last)


def solver(cls, A):
    return getattr(lib()[B_], cls)(A)


def proceeds(name, thunk):
    """the call returns; state the code expects and this unit does not know of is not a failure of the code"""
    r = attempt(thunk)
    if isinstance(r, Raised) and isinstance(r.e, AttributeError):
        raise Unsupported(f"{name}: {r.e}")
    return returns(name, lambda: reraise(r) if isinstance(r, Raised) else r)


def reraise(r):
    raise r.e


def square_problem(kind, dt):
    X, _ = solver_spaces(kind)
    A, a = abstract("A", X, X, dt)
    return X, X, A, a


def problem(kind, dt):
    X, Y = solver_spaces(kind)
    A, a = abstract("A", Y, X, dt)
    return X, Y, A, a


# ------------------------------------------------------------------ CG
ASSUME = ("contract of the operator (module absop)", "exact arithmetic", "denominators of the step lengths are not zero")

for kind, dt, show in SHOWN:
    @unit(f"cg setup[{kind},{dt}{', show' if show else ''}]", "C17 C05", [f"{B_}.CG.setup"], assumes=ASSUME)
    def _(c, kind=kind, dt=dt, show=show):
        X, Y, A, a = square_problem(kind, dt)
        x, y = vec_content("x", X, dt), vec_content("y", Y, dt)
        res = lin((ONE, y), (MINUS, a.fwd(x)))
        k = square(Y, res)
        y_, x0 = vec("y", Y, dt), vec("x", X, dt)
        fr = Frame(data=y_, guess=x0)
        s = solver("CG", A)
        tol = SNum(D.leaf("tol", real=True), "float64")
        n = dim("niter", 0)
        out = returns("setup", lambda: s.setup(y_, x0, mk(n), tol, show=show))
        vector_is("iterate", out, X, x, dt)
        vector_is("residual", s.r, Y, res, dt)
        vector_is("direction", s.c, X, res, dt)
        num_is("squared norm", s.kold, k)
        holds("history: one entry", len(s.cost) == 1)
        num_is("history: residual norm of the guess", s.cost[0], D.sqrt(k))
        int_is("no iteration yet", s.iiter, 0)
        int_is("iteration limit", s.niter, n)
        num_is("tolerance", s.tol, SNum.of(tol).p)
        separate("setup", data=y_, guess=x0, iterate=out, residual=s.r, direction=s.c)
        fr.check("setup")

    @unit(f"cg step[{kind},{dt}{', show' if show else ''}]", "C17 C05", [f"{B_}.CG.step"], assumes=ASSUME)
    def _(c, kind=kind, dt=dt, show=show):
        X, Y, A, a = square_problem(kind, dt)
        x, d, r = (vec_content(t, X, dt) for t in "xcr")
        s = solver("CG", A)
        k0 = positive("kold")
        Ac = a.fwd(d)
        al = k0 * D.inv(D.absv(inner(X, Ac, d)))
        x1, r1 = lin((ONE, x), (al, d)), lin((ONE, r), (MINUS * al, Ac))
        k1 = square(Y, r1)
        x_, y_, x0 = vec("x", X, dt), vec("y", Y, dt), vec("g", X, dt)
        s.y, s.r, s.c = y_, vec("r", Y, dt), vec("c", X, dt)
        n = dim("n", 0)
        s.kold, s.iiter, s.cost = SNum(k0, "float64"), mk(n), history("cost", I(n) + 1)
        if show:
            s.rank = mk(c.r)
        fr = Frame(data=y_, guess=x0)
        out = proceeds("step", lambda: s.step(x_, show))
        vector_is("iterate", out, X, x1, dt)
        vector_is("residual", s.r, Y, r1, dt)
        num_is("squared norm", s.kold, k1)
        vector_is("direction", s.c, X, lin((ONE, r1), (k1 * D.inv(k0), d)), dt)
        int_is("one more iteration", s.iiter, I(norm(n + 1)))
        hist_is("history", s.cost, I(norm(n + 1)), "cost", D.sqrt(k1))
        separate("step", data=y_, guess=x0, iterate=out, residual=s.r, direction=s.c)
        fr.check("step")

for kind, dt in KINDS:
    @unit(f"cg residual lemma[{kind},{dt}]", "C17", [f"{B_}.CG.step"], assumes=ASSUME, reach=())
    def _(c, kind=kind, dt=dt):
        """r = y - A x, x' = x + s c, r' = r - s A c   imply   r' = y - A x' (so the step preserves the invariant set up by setup)"""
        lemma(kind, dt, square_problem)


def lemma(kind, dt, problem_):
    X, Y, A, a = problem_(kind, dt)
    x, d, y = vec_content("x", X, dt), vec_content("c", X, dt), vec_content("y", Y, dt)
    s = D.leaf("s", real=True)
    r = lin((ONE, y), (MINUS, a.fwd(x)))
    r1 = lin((ONE, r), (MINUS * s, a.fwd(d)))
    want = lin((ONE, y), (MINUS, a.fwd(lin((ONE, x), (s, d)))))
    for e, lay in enumerate(Y.lays):
        i = T.fresh("i")
        with ctx().assuming(i >= 0, i < I(lay.dims[0])):
            eq_status("residual of the new iterate", r1(e, i), want(e, i))


# ------------------------------------------------------------------ CGLS
def norm_history(s):
    return [SNum.of(v).p for v in (list(s) if not (isinstance(s, TList) and s.sym is not None) else [])]


for kind, dt, show in SHOWN:
    @unit(f"cgls setup[{kind},{dt}{', show' if show else ''}]", "C18 C05", [f"{B_}.CGLS.setup"], assumes=ASSUME)
    def _(c, kind=kind, dt=dt, show=show):
        X, Y, A, a = problem(kind, dt)
        x, y = vec_content("x", X, dt), vec_content("y", Y, dt)
        damp = D.leaf("damp", real=True)
        d2 = damp * damp
        res = lin((ONE, y), (MINUS, a.fwd(x)))
        grad = lin((ONE, a.adj(res)), (MINUS * d2, x))
        k, nr = square(X, grad), square(Y, res)
        nx = square(X, x)
        y_, x0 = vec("y", Y, dt), vec("x", X, dt)
        fr = Frame(data=y_, guess=x0)
        s = solver("CGLS", A)
        tol = SNum(D.leaf("tol", real=True), "float64")
        n = dim("niter", 0)
        out = returns("setup", lambda: s.setup(y_, x0, mk(n), SNum(damp, "float64"), tol, show=show))
        vector_is("iterate", out, X, x, dt)
        vector_is("data residual", s.s, Y, res, dt)
        vector_is("direction", s.c, X, grad, dt)
        vector_is("image of the direction", s.q, Y, a.fwd(grad), dt)
        num_is("squared gradient norm", s.kold, k)
        num_is("squared damping", s.damp, d2)
        holds("history: one entry", len(s.cost) == 1 and len(s.cost1) == 1)
        num_is("history: residual norm of the guess", s.cost[0], D.sqrt(nr))
        num_is("history: damped residual norm of the guess", s.cost1[0], D.sqrt(nr + d2 * nx))
        int_is("no iteration yet", s.iiter, 0)
        int_is("iteration limit", s.niter, n)
        num_is("tolerance", s.tol, SNum.of(tol).p)
        separate("setup", data=y_, guess=x0, iterate=out, residual=s.s, direction=s.c, image=s.q)
        fr.check("setup")

    @unit(f"cgls step[{kind},{dt}{', show' if show else ''}]", "C18 C05", [f"{B_}.CGLS.step"], assumes=ASSUME)
    def _(c, kind=kind, dt=dt, show=show):
        X, Y, A, a = problem(kind, dt)
        x, d, r, q = vec_content("x", X, dt), vec_content("c", X, dt), vec_content("s", Y, dt), vec_content("q", Y, dt)
        s = solver("CGLS", A)
        damp, k0 = D.leaf("damp", real=True), positive("kold")
        d2 = damp * damp
        den = D.declare_nonneg(square(Y, q) + d2 * square(X, d))
        al = k0 * D.inv(den)
        x1, r1 = lin((ONE, x), (al, d)), lin((ONE, r), (MINUS * al, q))
        grad = lin((ONE, a.adj(r1)), (MINUS * d2, x1))
        k1, nr, nx = square(X, grad), square(Y, r1), square(X, x1)
        x_, y_, x0 = vec("x", X, dt), vec("y", Y, dt), vec("g", X, dt)
        s.y, s.s, s.c, s.q = y_, vec("s", Y, dt), vec("c", X, dt), vec("q", Y, dt)
        n = dim("n", 0)
        s.kold, s.iiter, s.damp = SNum(k0, "float64"), mk(n), SNum(d2, "float64")
        s.cost, s.cost1 = history("cost", I(n) + 1), history("cost1", I(n) + 1)
        if show:
            s.rank = mk(c.r)
        fr = Frame(data=y_, guess=x0)
        out = proceeds("step", lambda: s.step(x_, show))
        vector_is("iterate", out, X, x1, dt)
        vector_is("data residual", s.s, Y, r1, dt)
        num_is("squared gradient norm", s.kold, k1)
        dir1 = lin((ONE, grad), (k1 * D.inv(k0), d))
        vector_is("direction", s.c, X, dir1, dt)
        vector_is("image of the direction", s.q, Y, a.fwd(dir1), dt)
        int_is("one more iteration", s.iiter, I(norm(n + 1)))
        num_is("squared damping kept", s.damp, d2)
        hist_is("history", s.cost, I(norm(n + 1)), "cost", D.sqrt(nr))
        hist_is("damped history", s.cost1, I(norm(n + 1)), "cost1", D.sqrt(nr + d2 * nx))
        separate("step", data=y_, guess=x0, iterate=out, residual=s.s, direction=s.c, image=s.q)
        fr.check("step")

for kind, dt in KINDS:
    @unit(f"cgls residual lemma[{kind},{dt}]", "C18", [f"{B_}.CGLS.step"], assumes=ASSUME, reach=())
    def _(c, kind=kind, dt=dt):
        """s = y - A x, q = A c, x' = x + a c, s' = s - a q   imply   s' = y - A x'"""
        lemma(kind, dt, problem)


# ------------------------------------------------------------------ runs
class Token:
    """an opaque vector: the loops must only pass it on"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"iterate {self.n!r}"


def kold_at(i):
    return SNum(D.leaf("pos:kold", [I(norm(I(i)))], real=True), "float64")


def quiet(show):
    return show is False or show is None or (isinstance(show, (int, SInt)) and str(show) == "0")


for cls, prop in (("CG", "C17"), ("CGLS", "C18")):
    for given in (True, False):
        @unit(f"{cls} run[niter {'given' if given else 'from setup'}]", f"{prop} C05", [f"{B_}.{cls}.run"], reach=("return", "body"), assumes=("contract of step (units step)",))
        def _(c, cls=cls, given=given):
            """one iteration of the loop from an arbitrary state, and the state in which it ends"""
            s = solver(cls, None)
            i, n, m = dim("iiter", 0), dim("niter", 0), dim("limit of setup", 0)
            tol = SNum(D.leaf("tol", real=True), "float64")
            s.tol, s.niter, s.iiter, s.kold = tol, mk(m), mk(i), kold_at(i)
            limit = n if given else m
            x, log = Token("x"), []
            nxt, last = Token("next"), Token("last")

            def step(v, show=False):
                log.append(("step", v))
                s.iiter, s.kold = mk(norm(i + 1)), kold_at(i + 1)
                return nxt

            def callback(v, *a, **k):
                log.append(("callback", v))
            s.step, s.callback = step, callback
            where = f"{B_}:run"

            def go_on():
                return mk(i) < mk(limit) and kold_at(i) > tol

            def hook(cond, loc):
                c.mem["reached hook"] = True
                want, got = bool(go_on()), cond()
                if want != bool(got):
                    raise Unsupported("loop condition of another form")
                if want:
                    reach("body")
                    at, state = loader.current_locals(where), dict(s.__dict__)
                    yield 0
                    now = loader.current_locals(where)
                    if any(v is not x and now.get(n) is not v for n, v in at.items()):
                        raise Unsupported("the loop carries other variables")
                    if any(n not in ("iiter", "kold") and s.__dict__.get(n) is not v for n, v in state.items()):
                        raise Unsupported("the loop changes other attributes")
                    got = [(k, v) for k, v in log]
                    holds("an iteration: one step from the current iterate", [v for k, v in got if k == "step"] == [x], {"what": repr(got)})
                    holds("an iteration: one callback with the new iterate", [v for k, v in got if k == "callback"] == [nxt], {"what": repr(got)})
                    holds("an iteration: step before callback", [k for k, _ in got] == ["step", "callback"], {"what": repr(got)})
                    cur = loader.current_locals(where)
                    holds("an iteration: the new iterate is carried on", any(v is nxt for v in cur.values()) and not any(v is x for v in cur.values()), None)
                    raise PathEnd()
                # the loop ends
            c.mem["loop_hooks"] = {where: hook}
            out = proceeds("run", (lambda: s.run(x, mk(n))) if given else (lambda: s.run(x)))
            if not c.mem.get("reached hook"):
                raise Unsupported("no loop of the expected form")
            holds("the loop ends only at the limit or the tolerance", not go_on())
            holds("the current iterate is returned", out is x, {"what": repr(out)})
            holds("nothing happens after the loop", log == [], {"what": repr(log)})

    @unit(f"{cls} run without a limit", f"{prop} C21", [f"{B_}.{cls}.run"], reach=("raise",))
    def _(c, cls=cls):
        s = solver(cls, None)
        s.niter, s.iiter, s.kold, s.tol = None, 0, kold_at(0), SNum(D.leaf("tol", real=True), "float64")

        def step(v, show=False):
            raise Unsupported("a step without a limit")
        s.step = step
        must_raise("no limit", lambda: s.run(Token("x")))

    for default in (False, True):
        for cb in (True, False):
            @unit(f"{cls} functional interface[{'default arguments' if default else 'any limit'}{', callback' if cb else ''}]", f"{prop}",
                  [f"{F_}.{cls.lower()}", f"{B_}.{cls}.solve", f"{B_}.{cls}.run", f"{B_}.{cls}.finalize"], reach=("return", "body"), assumes=("contracts of setup and step (units setup, step)",))
            def _(c, cls=cls, default=default, cb=cb):
                """the loop of run with its invariant: after i iterations the state is the one setup and i steps lead to"""
                klass = getattr(lib()[B_], cls)
                X, Y, A, a = square_problem("scatter", "float64")
                tol, damp = (SNum(D.leaf(t, real=True), "float64") for t in ("tol", "damp"))
                niter = mk(dim("niter", 0))
                if default:
                    tol, damp, niter = SNum.of(1e-4), SNum.of(0.0), 10
                i = dim("iiter", 0)
                y, x0 = Token("y"), Token("x0")
                first, cur, nxt = Token(0), Token("i"), Token("i + 1")
                log, seen, calls = [], [], []
                cost = lambda j: SNum(D.leaf("cost", [I(norm(I(j)))], real=True), "float64")
                cost1 = lambda j: SNum(D.leaf("cost1", [I(norm(I(j)))], real=True), "float64")

                def setup(self, *args, **kw):
                    names = ("y", "x0", "niter", "tol", "show") if cls == "CG" else ("y", "x0", "niter", "damp", "tol", "show")
                    kw.update(zip(names, args))
                    seen.append((self, kw))
                    self.niter, self.tol = kw.get("niter"), kw.get("tol", SNum.of(1e-4))
                    self.iiter, self.kold, self.rank = 0, kold_at(0), the_comm().Get_rank()
                    self.cost = loader.mklist([cost(0)])
                    if cls == "CGLS":
                        self.cost1 = loader.mklist([cost1(0)])
                        self.damp = kw.get("damp", SNum.of(0.0)) ** 2
                    return first

                def step(self, v, show=False):
                    if v is not cur:
                        log.append(v)
                        holds("every step starts from the iterate before", False, {"what": repr(v)})
                    log.append("step")
                    self.iiter = mk(norm(I(self.iiter) + 1))
                    self.kold = kold_at(self.iiter)
                    self.cost.append(cost(self.iiter))
                    if cls == "CGLS":
                        self.cost1.append(cost1(self.iiter))
                    return nxt
                where = f"{B_}:run"
                go_on = lambda: mk(i) < niter and kold_at(i) > tol

                def hook(cond, loc):
                    if len(seen) != 1 or "hooked" in c.mem:
                        raise Unsupported("one setup and one loop expected")
                    c.mem["hooked"] = True
                    me = seen[0][0]
                    at = loader.current_locals(where)
                    names = [n for n, v in at.items() if v is first]
                    holds("the loop starts from the guess", names != [] and calls == [] and log == [], {"what": repr((names, calls, log))})
                    # an arbitrary iteration
                    me.iiter, me.kold, me.cost = mk(i), kold_at(i), history("cost", I(i) + 1)
                    if cls == "CGLS":
                        me.cost1 = history("cost1", I(i) + 1)
                    loader.rebind(where, **{n: cur for n in names})
                    c.assume(mk_limit(i, niter))
                    state = dict(me.__dict__)
                    if bool(cond()):
                        holds("goes on only below the limit and above the tolerance", go_on())
                        reach("body")
                        yield 0
                        now = loader.current_locals(where)
                        if any(n not in names and now.get(n) is not v for n, v in at.items()):
                            raise Unsupported("the loop carries other variables")
                        if any(n not in ("iiter", "kold", "cost", "cost1") and me.__dict__.get(n) is not v for n, v in state.items()):
                            raise Unsupported("the loop changes other attributes")
                        holds("an iteration: one step, then the callback with the new iterate", log == ["step"] + (["callback"] if cb else []) and all(v is nxt for v in calls), {"what": repr((log, calls))})
                        holds("an iteration: the new iterate is carried on", all(now[n] is nxt for n in names))
                        raise PathEnd()
                    holds("stops only at the limit or the tolerance", not go_on())

                def callback(v, *r, **k):
                    calls.append(v)
                    log.append("callback")
                old = klass.setup, klass.step
                klass.setup, klass.step = setup, step
                c.mem["loop_hooks"] = {where: hook}
                try:
                    kw = {} if default else dict(niter=niter, tol=tol)
                    if cls == "CGLS" and not default:
                        kw["damp"] = damp
                    if cb:
                        kw["callback"] = callback
                    out = proceeds("call", lambda: getattr(lib()[F_], cls.lower())(A, y, x0, **kw))
                finally:
                    klass.setup, klass.step = old
                if len(seen) != 1 or "hooked" not in c.mem:
                    raise Unsupported("one setup and one loop expected")
                reach("return")
                me, kw = seen[0]
                holds("setup: operator", me.Op is A)
                holds("setup: data and guess", kw["y"] is y and kw["x0"] is x0)
                int_is("setup: limit", kw.get("niter"), I(niter))
                num_is("setup: tolerance", kw.get("tol", SNum.of(1e-4)), SNum.of(tol).p)
                if cls == "CGLS":
                    num_is("setup: damping", kw.get("damp", SNum.of(0.0)), SNum.of(damp).p)
                holds("no step outside the loop", log == [], {"what": repr(log)})
                want = 3 if cls == "CG" else 6
                holds("number of results", isinstance(out, tuple) and len(out) == want, {"what": repr(out)[:100]})
                if not (isinstance(out, tuple) and len(out) == want):
                    raise PathEnd()
                holds("solution: the last iterate", out[0] is cur, {"what": repr(out[0])})
                if cls == "CG":
                    it, hist = out[1], out[2]
                else:
                    it, hist = out[2], out[5]
                    tole = SNum.of(kold_at(i)) < tol
                    int_is("reason of termination", out[1], 1 if tole else 2)
                    num_is("residual norm of the final iterate", out[3], SNum.of(cost(i)).p)
                    num_is("damped residual norm of the final iterate", out[4], SNum.of(cost1(i)).p)
                int_is("number of iterations", it, i)
                array_is("history", hist, (mk(norm(I(i) + 1)),), lambda idx: combine_cost(idx[0], i))


def mk_limit(i, niter):
    """part of the loop invariant: never more iterations than the limit"""
    return I(i) <= I(niter)


def combine_cost(i, n):
    return D.leaf("cost", [I(norm(I(i)))], real=True)
