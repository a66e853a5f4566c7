"""Concrete counter-models for equalities with sums: the integers take the values of a model of the path condition,
array elements and scalars take pseudo-random values, and both sides are evaluated.  A difference in value refutes the
equality; equal values say nothing.  Values of per-process functions met under a binder are added to the query (bounded,
with their axioms) until the model covers all of them.  Nothing is decided (None) when a term is outside what can be
evaluated: comparisons between numbers that the values do not satisfy, empty maxima, models that do not settle."""
import cmath
import hashlib
import z3
from .engine import ctx, model_str


class Skip(Exception):
    pass


def _consts(t, out, seen):
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        if t.sort() == z3.IntSort():
            out[t.get_id()] = t
        return
    for ch in t.children():
        _consts(ch, out, seen)


class Eval:
    def __init__(self, model, seed, limit=30000, known=None):
        self.model, self.seed, self.left = model, seed, limit
        self.known = known if known is not None else {}       # applications under binders the query covers
        self.missing = {}
        self.ints, self.vals = {}, {}

    def tick(self):
        self.left -= 1
        if self.left < 0:
            raise Skip("too large")

    def int_(self, t, env):
        if z3.is_int_value(t):
            return t.as_long()
        o = {}
        _consts(t, o, set())
        use = tuple((k, env[str(v)]) for k, v in sorted(o.items()) if str(v) in env)
        key = (t.get_id(), use)
        if key in self.ints:
            return self.ints[key]
        self.tick()
        if use:
            s = z3.substitute(t, *[(o[k], z3.IntVal(v)) for k, v in use])
        else:
            s = t
        self.ground(s)
        r = self.model.eval(ctx().to_base(s), model_completion=True)
        r = z3.simplify(r)
        if not z3.is_int_value(r):
            raise Skip("no value")
        self.ints[key] = r.as_long()
        return self.ints[key]

    def bool_(self, g, env):
        self.tick()
        o = {}
        _consts(g, o, set())
        use = [(v, z3.IntVal(env[str(v)])) for v in o.values() if str(v) in env]
        s = z3.substitute(g, *use) if use else g
        self.ground(s)
        r = z3.simplify(self.model.eval(ctx().to_base(s), model_completion=True))
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        raise Skip("no truth value")

    def ground(self, t):
        from .terms import apps_of, norm
        for a in apps_of(ctx().to_base(t)).values():
            a = z3.simplify(a)
            if z3.is_app(a) and a.num_args() and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.get_id() not in self.known:
                self.missing[a.get_id()] = a

    def leaf(self, a, env):
        args = tuple(self.int_(x, env) for x in a.args)
        h = hashlib.sha256(repr((a.head, args, self.seed)).encode()).digest()
        u = [int.from_bytes(h[i:i + 4], "big") / 2 ** 32 * 3 - 1.5 for i in (0, 4)]
        if a.head.startswith("pos:"):
            return abs(u[0]) + 0.2
        if a.real:
            return u[0]
        z = complex(u[0], u[1])
        return z.conjugate() if a.conj else z

    def atom(self, a, env):
        if a.kind == "leaf":
            if a.polys:
                raise Skip("leaf of numbers")
            return self.leaf(a, env)
        if a.kind == "bind":
            return self.binder(a, env)
        ps = [self.poly(p, env) for p in a.polys]
        h = a.head
        if h == "int":
            v = self.int_(a.args[0], env)
        elif h == "abs":
            v = abs(ps[0])
        elif h == "inv":
            if abs(ps[0]) < 1e-9:
                raise Skip("division by zero")
            v = 1 / ps[0]
        elif h == "sqrt":
            v = self.root(ps[0])
        elif h == "pow":
            if isinstance(ps[0], complex) or ps[0] <= 0:
                raise Skip("power")
            v = ps[0] ** ps[1]
        elif h == "nz":
            v = 1.0 if abs(ps[0]) > 1e-12 else 0.0
        elif h in ("maxof", "minof"):
            v = (max if h == "maxof" else min)(self.real(p) for p in ps)
        else:
            raise Skip(h)
        return v.conjugate() if a.conj and isinstance(v, complex) else v

    def real(self, v):
        if isinstance(v, complex):
            if abs(v.imag) > 1e-9:
                raise Skip("complex in an order")
            return v.real
        return v

    def root(self, v):
        v = self.real(v)
        if v < -1e-12:
            raise Skip("root of a negative number")
        return max(v, 0.0) ** 0.5

    def binder(self, a, env):
        names = [str(v) for v, _ in a.vars]
        vals = []

        def go(j, e):
            if j == len(names):
                if all(self.bool_(g, e) for g in a.guard):
                    vals.append(self.poly(a.body, e))
                return
            n = self.int_(a.vars[j][1], e)
            for i in range(max(n, 0)):
                go(j + 1, {**e, names[j]: i})
        go(0, env)
        if a.head == "sum":
            return sum(vals)
        if not vals:
            raise Skip("empty maximum")
        return (max if a.head == "max" else min)(self.real(v) for v in vals)

    def poly(self, p, env, scale=None):
        from .data import _byid
        out, mag = 0.0, 0.0
        for k, co in p.m.items():
            self.tick()
            t = float(co[0]) if co[1] == 0 else complex(float(co[0]), float(co[1]))
            for aid in k:
                t = t * self.atom_cached(_byid[aid], env)
            out, mag = out + t, mag + abs(t)
        if scale is not None:
            scale.append(mag)
        return out

    def atom_cached(self, a, env):
        key = (a.id, tuple(sorted(env.items())))
        if key not in self.vals:
            self.vals[key] = self.atom(a, env)
        return self.vals[key]


def _apps(t, out):
    from .terms import apps_of
    for a in apps_of(ctx().to_base(t)).values():
        a = z3.simplify(a)
        o = {}
        _consts(a, o, set())
        if z3.is_app(a) and a.num_args() and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not any(str(v).startswith("$b") for v in o.values()):
            out[a.get_id()] = a


def _ints_of(p, out, seen, apps):
    from .data import _byid
    for k in p.m:
        for aid in k:
            a = _byid[aid]
            if a.id in seen:
                continue
            seen.add(a.id)
            for t in list(a.args) + [n for _, n in a.vars] + list(a.guard):
                _consts(t, out, set())
                _apps(t, apps)
            for q in a.polys:
                _ints_of(q, out, seen, apps)
            if a.body is not None:
                _ints_of(a.body, out, seen, apps)


def _numeric_conditions(conds):
    """comparisons between numbers in the path condition; None if there are conditions on values of another form"""
    from .values import _cmp_table
    names = {}
    for e_gt, e_eq, e in _cmp_table.values():
        names[str(e_gt)] = (e_gt, "gt", e)
        names[str(e_eq)] = (e_eq, "eq", e)
    found, seen = {}, set()
    stack = list(conds)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_real(t):
            return None
        if z3.is_const(t) and t.sort() == z3.BoolSort() and str(t) in names:
            found[str(t)] = names[str(t)]
        stack += t.children()
    return list(found.values())


def refute(d, rounds=6):
    """information about a counter-model of d == 0, or None"""
    c = ctx()
    ints, first = {}, {}
    _ints_of(d, ints, set(), first)
    ints = [c.to_base(v) for v in ints.values() if not str(v).startswith("$b")]
    comps = _numeric_conditions(c.facts + c.pc + c.local_conds())
    if comps is None:
        return None
    for bound in (3, 6):
        known = dict(first)
        for rnd in range(rounds):
            apps = list(known.values())
            lim = [z3.And(v <= bound, v >= -bound) for v in ints] + [z3.And(a <= 2 * bound, a >= -2 * bound) for a in apps if z3.is_int(a)]
            st, model, definite, _ = c.sat(c.local_conds() + lim, timeout=1500, want_model=True)
            if st != "sat" or not definite or model is None:
                break
            r = _differs(d, model, comps, known)
            if isinstance(r, dict):
                if len(r) + len(known) > 60:
                    break
                known.update(r)
                continue
            if r:
                return {"difference": f"{r} with pseudo-random array elements", "model": model_str(model)}
            break
    return None


def _differs(d, model, comps, known):
    """the difference (text) if two evaluations differ from 0; None; or the applications the model has to cover"""
    differs = 0
    for seed in range(12):
        ev = Eval(model, seed, known=known)
        try:
            ok = True
            for b, what, e in comps:
                r = model.eval(b)
                if not (z3.is_true(r) or z3.is_false(r)):
                    continue
                v = ev.real(ev.poly(e, {}))
                if abs(v) < 1e-7:
                    raise Skip("too close")
                if bool(z3.is_true(r)) != (v > 0 if what == "gt" else False):
                    ok = False
                    break
            if not ok:
                continue
            sc = []
            v = ev.poly(d, {}, sc)
        except (Skip, OverflowError, RecursionError, z3.Z3Exception):
            return dict(ev.missing) or None
        if ev.missing:
            return dict(ev.missing)
        if abs(v) <= 1e-6 * (1 + sc[0]):
            return None
        differs += 1
        if differs == 2:
            return f"{v:.6g}"
    return None
