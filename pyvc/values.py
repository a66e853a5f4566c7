"""Symbolic Python / numpy values."""
from __future__ import annotations
from fractions import Fraction
from numbers import Integral, Number
import z3
from . import terms as T, data as D
from .terms import I, norm, lit, subst, mentions, is_int
from .engine import ctx, Unsupported, PathEnd
from .data import Poly


# ------------------------------------------------------------------ integers and booleans
def mk(t):
    """z3 int / python int -> python int or SInt"""
    if isinstance(t, SInt):
        t = t.t
    v = norm(t) if not isinstance(t, int) else t
    if isinstance(v, int):
        return v
    return SInt(v)


def mkb(c):
    if isinstance(c, bool):
        return c
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return SBool(c)


class SBool:
    __slots__ = ("c",)
    _sym = True

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return ctx().fork(self.c)

    def __and__(self, o):
        return mkb(z3.And(self.c, B(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkb(z3.Or(self.c, B(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkb(z3.Not(self.c))

    def __eq__(self, o):
        return mkb(self.c == B(o))

    def __ne__(self, o):
        return mkb(self.c != B(o))

    __hash__ = object.__hash__

    def __repr__(self):
        return f"SBool({self.c})"

    def all(self):
        return self

    any = all


def B(x):
    if isinstance(x, SBool):
        return x.c
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


class SInt:
    __slots__ = ("t",)
    _sym = True
    dtype = None
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, t):
        self.t = t

    def _bin(self, o, f):
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, SBool):
            o = SInt(z3.If(o.c, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(o, int):
            return mk(f(self.t, z3.IntVal(o)))
        if isinstance(o, SInt):
            return mk(f(self.t, o.t))
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, (float, complex)):
            return SNum.of(self) + o
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if isinstance(o, (float, complex)):
            return o + SNum.of(self)
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        if isinstance(o, (float, complex)):
            return SNum.of(self) - o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinstance(o, (float, complex)):
            return o - SNum.of(self)
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (float, complex)):
            return SNum.of(self) * o
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            return repeat(o, self)
        if isinstance(o, (float, complex)):
            return o * SNum.of(self)
        return self._bin(o, lambda a, b: b * a)

    def __floordiv__(self, o):
        return int_divmod(self, o)[0]

    def __rfloordiv__(self, o):
        return int_divmod(o, self)[0]

    def __mod__(self, o):
        return int_divmod(self, o)[1]

    def __rmod__(self, o):
        return int_divmod(o, self)[1]

    def __divmod__(self, o):
        return int_divmod(self, o)

    def __truediv__(self, o):
        return SNum.of(self) / o

    def __rtruediv__(self, o):
        return SNum.of(o) / SNum.of(self)

    def __pow__(self, o):
        if is_int(o) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return SNum.of(self) ** o

    def __neg__(self):
        return mk(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        if ctx().valid(self.t >= 0):
            return self
        if ctx().valid(self.t <= 0):
            return -self
        return mk(z3.If(self.t >= 0, self.t, -self.t))

    def _cmp(self, o, f):
        if isinstance(o, SBool):
            o = SInt(z3.If(o.c, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return bool(f(0, 1 if o > 0 else -1))
        if isinstance(o, float) and o == o and o == int(o):
            o = int(o)
        if isinstance(o, (int, SInt)):
            # compare in normal form
            d = norm(self.t - I(o))
            if isinstance(d, int):
                return bool(f(d, 0))
            return mkb(f(d, z3.IntVal(0)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, tuple) or o is None or isinstance(o, str):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if isinstance(o, tuple) or o is None or isinstance(o, str):
            return True
        return self._cmp(o, lambda a, b: a != b)

    __hash__ = object.__hash__

    def __bool__(self):
        return ctx().fork(self.t != 0)

    def __repr__(self):
        return f"{self.t}"

    def __format__(self, spec):
        return f"<{self.t}>"

    # numpy scalar look-alike
    def item(self):
        return self

    def astype(self, dt):
        return self

    def sum(self):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return self


Integral.register(SInt)


def int_divmod(a, b):
    c = ctx()
    if is_int(a) and is_int(b):
        return divmod(a, b)
    if isinstance(a, (float, SNum)) or isinstance(b, (float, SNum)):
        raise Unsupported("floor division of reals")
    if is_int(b):
        if b == 1:
            return a, 0
        if b <= 0:
            raise Unsupported("division by a non-positive constant")
    else:
        if not c.fork(I(b) > 0):
            if c.fork(I(b) == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            raise Unsupported("floor division by a negative number")
    # exact polynomial division
    ta, tb = I(norm(I(a))), I(norm(I(b)))
    q = exact_quotient(ta, tb)
    if q is not None:
        return mk(q), 0
    return mk(T.QDIV(ta, tb)), mk(T.RMOD(ta, tb))


def exact_quotient(a, b):
    pb = T.ipoly(b)
    if len(pb) != 1:
        return None
    (mb, cb), = pb.items()
    if not mb:
        pa = T.ipoly(a)
        if all(c % cb == 0 for c in pa.values()):
            return T.from_ipoly({m: c // cb for m, c in pa.items()})
        return None
    r = {}
    for m, c in T.ipoly(a).items():
        ml = list(m)
        for x in mb:
            if x not in ml:
                return None
            ml.remove(x)
        if c % cb:
            return None
        r[tuple(ml)] = c // cb
    return T.from_ipoly(r)


def imin(a, b):
    c = ctx()
    if is_int(a) and is_int(b):
        return min(a, b)
    ta, tb = I(a), I(b)
    if c.valid(ta <= tb):
        return mk(ta)
    if c.valid(tb <= ta):
        return mk(tb)
    return mk(z3.If(ta <= tb, ta, tb))


def imax(a, b):
    c = ctx()
    if is_int(a) and is_int(b):
        return max(a, b)
    ta, tb = I(a), I(b)
    if c.valid(ta >= tb):
        return mk(ta)
    if c.valid(tb >= ta):
        return mk(tb)
    return mk(z3.If(ta >= tb, ta, tb))


def ite_int(cond, a, b):
    if isinstance(cond, bool):
        return a if cond else b
    cond = z3.simplify(cond)
    if z3.is_true(cond):
        return a
    if z3.is_false(cond):
        return b
    ta, tb = I(norm(I(a))), I(norm(I(b)))
    if ta.eq(tb):
        return mk(ta)
    return mk(z3.If(cond, ta, tb))


# ------------------------------------------------------------------ prefix sums
class Core:
    """prefix sums S(params, t) = f(0)+...+f(t-1) of a sequence of integers f over 0<=k<length (S total on Z);
    params: the constants f and the length depend on and that may be renamed (rank, bound and fresh variables)"""

    def __init__(self, name, kin, pars, fk, lenk):
        n = len(pars)
        Z = z3.IntSort()
        self.name, self.kin, self.pars, self.fk, self.lenk = name, kin, pars, fk, lenk
        self.S = z3.Function("S_" + name, *([Z] * (n + 2)))
        self.own = z3.Function("own_" + name, *([Z] * (n + 2)))
        self.nonneg = False
        self.views = {}

    def view(self, actual):
        key = tuple(a.get_id() for a in actual)
        v = self.views.get(key)
        if v is None:
            for a in actual:
                T.keep(a)
            v = self.views[key] = Base(self, tuple(actual))
        return v

    def register(self, c):
        S, own, n = self.S, self.own, len(self.pars)
        c.app_schemas.setdefault(S.name(), []).append(lambda *a: self.view(a[:n])._app(a[n]))
        c.pair_schemas.setdefault(S.name(), []).append(lambda a, b: self.view(a[:n])._pair(a[n], b[n]) if all(x.eq(y) for x, y in zip(a[:n], b[:n])) else [])
        c.app_schemas.setdefault(own.name(), []).append(lambda *a: self.view(a[:n])._ownapp(a[n]))
        if not n:
            c.rank_terms_decls.add(S.name())
        else:
            # equal parameters, equal prefix sums: congruence of S does it
            pass
        c.bases.append(self.view(self.pars) if not n else self)


class Base:
    """Core at given parameters"""
    lin = None          # S(t) as a linear combination of other prefix sums

    def __init__(self, core, actual):
        self.core, self.actual = core, actual
        self.key_ = (core.name, tuple(a.get_id() for a in actual))
        self.name, self.decl = core.name, core.S
        self.pairs = list(zip(core.pars, actual))
        self.length = I(norm(z3.substitute(core.lenk, *self.pairs))) if self.pairs else core.lenk
        self._f = I(norm(z3.substitute(core.fk, *self.pairs))) if self.pairs else core.fk
        self.fk = z3.substitute(self._f, (core.kin, KAPPA))

    @property
    def nonneg(self):
        return self.core.nonneg

    def f(self, t):
        return z3.substitute(self._f, (self.core.kin, I(t)))

    def S(self, t):
        return self.core.S(*self.actual, I(t))

    def own(self, t):
        return self.core.own(*self.actual, I(t))

    def is_app(self, x):
        """argument of an application of this prefix sum, or None"""
        if not x.decl().eq(self.core.S):
            return None
        n = len(self.actual)
        if all(x.arg(j).eq(self.actual[j]) for j in range(n)):
            return x.arg(n)
        return None

    def at(self, t):
        """S(t), shifted to a base point"""
        if self.lin is not None:
            return mk(self.lin(I(t)))
        base, c = T.const_offset(I(t))
        if not base:
            acc = 0
            if abs(c) > 12:
                return mk(self.S(z3.IntVal(c)))
            for j in range(c):
                acc = acc + mk(self.f(z3.IntVal(j)))
            for j in range(c, 0):
                acc = acc - mk(self.f(z3.IntVal(j)))
            return acc
        b = T.from_ipoly(base)
        if abs(c) > 12:
            return mk(self.S(I(norm(I(t)))))
        # keep S(length) and S(rank) as the reference points
        acc = mk(self.S(b))
        for j in range(c):
            acc = acc + mk(self.f(I(norm(b + j))))
        for j in range(c, 0):
            acc = acc - mk(self.f(I(norm(b + j))))
        return acc

    def _app(self, t):
        S, f = self.S, self.f
        n = I(self.length)
        out = []
        base, off = T.const_offset(t)
        if not base:
            out.append(S(t) == I(self.at(z3.IntVal(off))))
        elif off:
            out.append(S(t) == I(self.at(t)))
        if self.nonneg:
            out.append(z3.Implies(z3.And(0 <= t, t < n), I(self.f(t)) >= 0))
            out.append(z3.Implies(z3.And(0 <= t, t <= n), z3.And(S(t) >= 0, S(t) <= S(n))))
            out.append(z3.Implies(z3.And(0 <= t, t < n), S(t) + I(self.f(t)) <= S(n)))
            out.append(z3.Implies(z3.And(1 <= t, t <= n), z3.And(I(self.f(I(norm(t - 1)))) >= 0, S(t) >= I(self.f(I(norm(t - 1)))))))
        # ends
        out.append(z3.Implies(t == 0, S(t) == 0))
        out.append(z3.Implies(t == n, S(t) == S(n)))
        out.append(z3.Implies(t == n - 1, S(t) + I(self.f(t)) == S(n)))
        out.append(z3.Implies(t == 1, S(t) == I(self.f(z3.IntVal(0)))))
        out.append(z3.Implies(t == -1, S(t) == -I(self.f(z3.IntVal(-1)))))
        return out

    def _pair(self, a, b):
        S = self.S
        n = I(self.length)
        out = []
        for x, y in ((a, b), (b, a)):
            out.append(z3.Implies(x == y, S(x) == S(y)))
            if self.nonneg:
                out.append(z3.Implies(z3.And(0 <= x, x < y, y <= n), S(x) + I(self.f(x)) <= S(y)))
            out.append(z3.Implies(y == x + 1, S(y) == S(x) + I(self.f(x))))
        return out

    def _ownapp(self, g):
        S, n = self.S, I(self.length)
        o = self.own(g)
        return [z3.Implies(z3.And(0 <= g, g < S(n)),
                           z3.And(0 <= o, o < n, S(o) <= g, g < S(o) + I(self.f(o))))]


def prefix_expansion(c, formulas, K):
    """S(0) = 0, S(k+1) = S(k) + f(k) for k < K and arguments within 0..K, for all prefix sums in the formulas (and in
    these equations); None when there are none"""
    byname = {}
    for b in c.bases:
        core = b.core if isinstance(b, Base) else b
        byname[core.S.name()] = core
    out, done, seen = [], set(), set()
    work = list(formulas)
    for rnd in range(4):
        new = []
        for f in work:
            for k, a in T.apps_of(f).items():
                if k in seen:
                    continue
                seen.add(k)
                core = byname.get(a.decl().name())
                if core is None:
                    continue
                n = len(core.pars)
                v = core.view(tuple(a.arg(j) for j in range(n)))
                t = a.arg(n)
                if not z3.is_int_value(t):
                    new += [t >= 0, t <= K]
                if v.key_ in done:
                    continue
                done.add(v.key_)
                ln = I(v.length)
                new += [ln <= K] if not z3.is_int_value(ln) else []
                new.append(v.S(z3.IntVal(0)) == 0)
                for j in range(K):
                    new.append(v.S(z3.IntVal(j + 1)) == v.S(z3.IntVal(j)) + I(v.f(z3.IntVal(j))))
        if not new:
            break
        out += new
        work = new
    return out if done else None


KAPPA = z3.Int("kappa!")
KIN = z3.Int("kin!")


def _params(c, ts, skip):
    """constants that may be renamed, in order of occurrence"""
    out, seen = [], set()
    stack = list(reversed(ts))
    done = set()
    while stack:
        t = stack.pop()
        if t.get_id() in done:
            continue
        done.add(t.get_id())
        if t.num_args() == 0:
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not t.eq(skip) and (t.eq(c.r) or "!" in t.decl().name()) and z3.is_int(t):
                out.append(t)
        else:
            stack.extend(reversed(t.children()))
    return out


def get_base(f, length, create=True):
    """prefix-sum function of the integer sequence f (term -> term) of the given length"""
    c = ctx()
    length = I(norm(I(length)))
    kap = c.mem.setdefault("kap stack", [])
    x = z3.Int(f"kapin{len(kap)}!")
    kap.append(x)
    try:
        fk = I(norm(I(f(x))))
    finally:
        kap.pop()
    acts = _params(c, [fk, length], x)
    for b in c.bases:
        core = b.core if isinstance(b, Base) else b
        if len(core.pars) != len(acts):
            continue
        v = core.view(acts)
        if v.length.eq(length) and I(v.f(x)).eq(fk):
            return v
    for b in c.bases:
        core = b.core if isinstance(b, Base) else b
        if len(core.pars) != len(acts):
            continue
        v = core.view(acts)
        if v.length.eq(length) and c.valid(z3.Implies(z3.And(0 <= x, x < length), fk == I(v.f(x)))):
            return v
    # a beginning of a longer sequence
    acts2 = _params(c, [fk], x)
    for b in c.bases:
        core = b.core if isinstance(b, Base) else b
        if len(core.pars) != len(acts2):
            continue
        v = core.view(acts2)
        if (I(v.f(x)).eq(fk) or c.valid(z3.Implies(z3.And(0 <= x, x < length), fk == I(v.f(x))))) and c.valid(v.length >= length):
            return v
    if not create:
        return None
    pars = tuple(z3.Int(f"par{j}!") for j in range(len(acts)))
    sub = list(zip(acts, pars)) + [(x, KIN)]
    cfk, clen = z3.substitute(fk, *sub), z3.substitute(length, *sub)
    name = f"{len(c.bases)}_{abs(hash(cfk.sexpr())) % 99991}"
    core = Core(name, KIN, pars, cfk, clen)
    core.nonneg = c.valid(z3.Implies(z3.And(0 <= KIN, KIN < clen), cfk >= 0))
    core.register(c)
    v = core.view(acts)
    if not acts:
        _balanced_facts(c, v)
    if not acts and not c.mem.get("linear facts"):
        c.mem["linear facts"] = True
        try:
            _linear_facts(c, v, f, fk, x, length)
        finally:
            c.mem["linear facts"] = False
    return v


def _linear_facts(c, v, f, fk, x, length):
    """prefix sums of a sequence that is a linear combination of others: sum of m*g = m * sum of g"""
    p = T.ipoly(fk)
    if len(p) == 1 and next(iter(p.values())) == 1 and all(mentions(T._atoms[a], x) for a in next(iter(p))):
        return
    e = lambda t: I(norm(I(prefix_at(f, length, t))))
    S = v.S
    v.lin = e
    c.app_schemas[v.core.S.name()].append(lambda t: [S(t) == e(t)])
    c.facts.append(S(length) == e(length))


def _balanced_facts(c, b):
    """prefix sums of the balanced split: closed form (lemma proved in unit split.sum)"""
    if not T.mentions(b.length, c.P) or b.fk is None:
        return
    for a in T.apps_of(b.fk).values():
        if a.decl().name() == "qdiv" and a.arg(1).eq(b.length) and not mentions(a.arg(0), KAPPA):
            N, P = a.arg(0), b.length
            share = z3.If(KAPPA < T.RMOD(N, P), T.QDIV(N, P) + 1, T.QDIV(N, P))
            if c.valid(z3.Implies(z3.And(0 <= KAPPA, KAPPA < P, N >= 0), b.fk == share)):
                pre = lambda t: t * T.QDIV(N, P) + z3.If(t <= T.RMOD(N, P), t, T.RMOD(N, P))
                S = b.S
                c.app_schemas[b.core.S.name()].append(lambda t: [z3.Implies(z3.And(N >= 0, 0 <= t, t <= P), S(t) == pre(t)), z3.Implies(z3.And(N >= 0, t == P), S(t) == N)])
                c.facts.append(z3.Implies(N >= 0, S(P) == N))
                return


def prefix_at(f, length, t):
    """sum_{k<t} f(k) as a linear combination of base prefix functions"""
    st = ctx().mem.setdefault("pre stack", [])
    KAP = z3.Int(f"prein{len(st)}!")
    st.append(KAP)
    try:
        fk = I(norm(I(f(KAP))))
    finally:
        st.pop()
    p = T.ipoly(fk)
    groups = {}
    acc = 0
    for m, co in p.items():
        dep = tuple(a for a in m if mentions(T._atoms[a], KAP))
        ind = tuple(a for a in m if not mentions(T._atoms[a], KAP))
        groups.setdefault(dep, {})
        groups[dep][ind] = groups[dep].get(ind, 0) + co
    for dep, co in sorted(groups.items()):
        cf = mk(T.from_ipoly(co))
        if not dep:
            acc = acc + cf * mk(I(t))
            continue
        g = T.from_ipoly({dep: 1})
        b = get_base(lambda x, g=g: z3.substitute(g, (KAP, I(x))), length)
        acc = acc + cf * b.at(t)
    return acc


def slice_origin(x, fn, a):
    f, n, st = x.origin or (fn, x.length, 0)
    return f, n, mk(I(norm(I(st) + I(a))))


def seq_total(x, fn):
    """sum of the integers fn(0..length-1) of the sequence x, a slice by prefix sums of the whole"""
    if x.origin is not None:
        f, n, a = x.origin
        return prefix_at(f, n, I(norm(I(a) + x.length))) - prefix_at(f, n, I(a))
    return prefix_at(fn, x.length, x.length)


# ------------------------------------------------------------------ sequences
def seq_index(i, n):
    """python index (possibly negative) -> term; raises IndexError when out of range"""
    c = ctx()
    ti, tn = I(i), I(n)
    v = lit(ti)
    if v is not None:
        t = ti if v >= 0 else I(norm(tn + v))
        ok = (tn > v) if v >= 0 else (tn >= -v)
    else:
        ok = z3.And(-tn <= ti, ti < tn)
        if c.valid(ti >= 0):
            t = ti
        elif c.fork(ti < 0):
            t = I(norm(ti + tn))
        else:
            t = ti
    if not c.fork(ok):
        raise IndexError("index out of range")
    return I(norm(t))


def seq_pick(i, n, fn):
    """element at a python index; an index of unknown sign does not split the path"""
    c = ctx()
    ti, tn = I(i), I(n)
    if lit(ti) is None and c.valid(z3.And(-tn <= ti, ti < tn)) and not c.valid(ti >= 0) and not c.valid(ti < 0):
        wrap = tn - 1 if c.valid(z3.Implies(ti < 0, ti == -1)) else ti + tn
        return ite_value(ti < 0, lambda: fn(I(norm(wrap))), lambda: fn(I(norm(ti))))
    return fn(seq_index(i, n))


class SymList:
    """python list of symbolic length: fn(term) -> value"""
    _sym = True

    origin = None       # (fn, length, start) of the sequence this is a slice of

    def __init__(self, length, fn, tag=None):
        self.length, self.fn, self.tag = I(length), fn, tag

    def at(self, t):
        return self.fn(I(t))

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, n, st = slice_bounds(i, self.length)
            if st != 1:
                raise Unsupported("list slice step")
            r = SymList(I(n), lambda k, f=self.fn: f(I(norm(k + I(a)))), None)
            r.origin = slice_origin(self, self.fn, a)
            return r
        return seq_pick(i, self.length, self.fn)

    def __len__(self):
        raise Unsupported("len of a symbolic list")

    def __add__(self, o):
        if isinstance(o, SymList):
            n1 = self.length
            return SymList(I(norm(n1 + o.length)), lambda k, a=self, b=o: ite_value(k < n1, lambda: a.fn(k), lambda: b.fn(I(norm(k - n1)))))
        if isinstance(o, list):
            return self + conc_list(o)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, list):
            return conc_list(o) + self
        return NotImplemented

    def __iter__(self):
        n = lit(self.length)
        if n is None:
            raise Unsupported("iteration over a list of symbolic length")
        return iter([self.fn(z3.IntVal(k)) for k in range(n)])

    def __bool__(self):
        return ctx().fork(self.length > 0)

    def __eq__(self, o):
        return seq_equal(self, o)

    def __ne__(self, o):
        return vnot(seq_equal(self, o))

    __hash__ = object.__hash__

    def __contains__(self, x):
        return ctx().fork(seq_contains(self, x))

    def index(self, x):
        raise Unsupported("list.index")

    def copy(self):
        return self

    def __repr__(self):
        return f"SymList(len={self.length})"

    def __format__(self, s):
        return repr(self)


class TList(list):
    """python list made by the code under proof; may grow inside a generic iteration"""
    sym = None

    def append(self, x):
        c = ctx()
        if c.loop_stack:
            if not any(self is o for o in c.loop_stack[-1].own):
                c.loop_stack[-1].list_append(self, x)
                return
        if self.sym is not None:
            self.sym = self.sym + [x]
            return
        list.append(self, x)

    def extend(self, xs):
        if self.sym is not None or isinstance(xs, SymList) or ctx().loop_stack:
            raise Unsupported("list.extend")
        for x in xs:
            self.append(x)

    def _s(self):
        return self.sym

    def __getitem__(self, i):
        if self.sym is not None:
            return self.sym[i]
        if isinstance(i, SInt):
            return conc_list(self)[i]
        r = list.__getitem__(self, i)
        return TList(r) if isinstance(i, slice) else r

    def __setitem__(self, i, v):
        if self.sym is not None or isinstance(i, SInt) or ctx().loop_stack:
            raise Unsupported("list item assignment")
        list.__setitem__(self, i, v)

    def __iter__(self):
        if self.sym is not None:
            return iter(self.sym)
        return list.__iter__(self)

    def __len__(self):
        if self.sym is not None:
            raise Unsupported("len of a symbolic list")
        return list.__len__(self)

    def __bool__(self):
        if self.sym is not None:
            return bool(self.sym)
        return list.__len__(self) > 0

    def __add__(self, o):
        o = o.sym if isinstance(o, TList) and o.sym is not None else o
        if self.sym is not None:
            return self.sym + (o if isinstance(o, SymList) else list(o))
        if isinstance(o, SymList):
            return conc_list(self) + o
        return TList(list.__add__(self, o))

    def __mul__(self, n):
        if isinstance(n, SInt):
            return repeat(self, n)
        return TList(list.__mul__(self, n))
    __rmul__ = __mul__

    def __eq__(self, o):
        return values_equal(self if self.sym is None else self.sym, o)

    def __ne__(self, o):
        return vnot(self == o)

    __hash__ = None


def conc_list(l):
    l = list(l)

    def fn(k):
        v = lit(I(k))
        if v is not None:
            return l[v]

        def go(i):
            if i == len(l) - 1:
                return l[i]
            return ite_value(I(k) == i, lambda: l[i], lambda: go(i + 1))
        if not l:
            return 0
        return go(0)
    return SymList(z3.IntVal(len(l)), fn)


def seq_contains(s, x):
    """exists k: s[k]==x, as an If-free condition: fresh witness / universal fact"""
    c = ctx()
    key = ("contains", id(s), repr(x))
    b = T.fresh("has")
    w = T.fresh("wit")
    v0 = s.fn(KAPPA)
    if not isinstance(v0, (int, SInt)):
        raise Unsupported("membership of non-integers")
    n = s.length
    k0 = T.fresh("any")
    with c.assuming(0 <= k0, k0 < n):
        if c.valid(I(s.fn(k0)) != I(x)):
            return False
    if c.rank_dependent() and (c.frames or mentions(I(v0), c.r) or mentions(I(x), c.r)):
        raise Unsupported("membership test under a rank-dependent condition")
    c.fact(z3.Or(b == 0, b == 1), z3.Implies(b == 1, z3.And(0 <= w, w < n, I(s.fn(w)) == I(x))))
    if n.eq(I(norm(c.P))):
        c.rank_facts.append(lambda k: z3.Implies(b == 0, I(s.fn(k)) != I(x)))
    return b == 1


def ite_value(cond, fa, fb):
    """value-level conditional"""
    if isinstance(cond, bool):
        return fa() if cond else fb()
    cond = z3.simplify(cond)
    if z3.is_true(cond):
        return fa()
    if z3.is_false(cond):
        return fb()
    c = ctx()
    if c.valid(cond):
        return fa()
    if c.valid(z3.Not(cond)):
        return fb()
    return merge_value(cond, fa(), fb())


def merge_value(cond, a, b):
    from .sarr import SymArr, IntArr, ite_array
    if a is b:
        return a
    if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)) and not isinstance(a, bool) and not isinstance(b, bool):
        return ite_int(cond, a, b)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkb(z3.If(cond, B(a), B(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_value(cond, x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [merge_value(cond, x, y) for x, y in zip(a, b)]
    if isinstance(a, SymArr) and isinstance(b, SymArr):
        return ite_array(cond, a, b)
    if isinstance(a, SNum) or isinstance(b, SNum):
        if SNum.of(a).p == SNum.of(b).p:
            return a
    if a is None and b is None:
        return None
    try:
        if type(a) is type(b) and isinstance(a, (str, float)) and a == b:
            return a
    except Exception:
        pass
    # fall back on a fork of the path
    return a if ctx().fork(cond) else b


def vnot(b):
    if isinstance(b, bool):
        return not b
    return mkb(z3.Not(B(b)))


def vand(*bs):
    return mkb(z3.And(*[B(b) for b in bs]))


def values_equal(a, b):
    """== of two python-level values as bool/SBool"""
    from .sarr import IntArr
    if isinstance(a, TList) and a.sym is not None:
        a = a.sym
    if isinstance(b, TList) and b.sym is not None:
        b = b.sym
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            e = values_equal(x, y)
            r = vand(r, e)
        return r
    if isinstance(a, (SymList, IntArr)) or isinstance(b, (SymList, IntArr)):
        return seq_equal(a, b)
    r = a == b
    if isinstance(r, (bool, SBool)):
        return r
    raise Unsupported("equality of values")


_eqn = {}


def seq_equal(a, b):
    """equality of two (symbolic) sequences"""
    from .sarr import IntArr
    c = ctx()
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, (list, tuple)):
        a = conc_list(a)
    if isinstance(b, (list, tuple)):
        b = conc_list(b)
    if isinstance(a, IntArr):
        a = a.tolist_sym()
    if isinstance(b, IntArr):
        b = b.tolist_sym()
    if not isinstance(a, SymList) or not isinstance(b, SymList):
        return False
    ln = a.length == b.length
    na = lit(a.length)
    if na is not None and lit(b.length) is not None:
        if na != lit(b.length):
            return False
        r = True
        for k in range(na):
            r = vand(r, values_equal(a.fn(z3.IntVal(k)), b.fn(z3.IntVal(k))))
        return r
    if not c.fork(ln):
        return False
    # provably equal everywhere?
    k = T.fresh("k")
    with c.assuming(k >= 0, k < a.length):
        e = values_equal(a.fn(k), b.fn(k))
        if e is True or (not isinstance(e, bool) and c.valid(B(e))):
            return True
    # undetermined: a witness of the difference
    key = ("seqeq", B(e).sexpr().replace(str(k), "K"))
    tab = c.mem.setdefault("seqeq", {})
    if key not in tab:
        b_ = z3.Bool(f"seqeq{len(tab)}")
        w = z3.Int(f"seqeqw{len(tab)}")
        ea = lambda t: B(values_equal(a.fn(t), b.fn(t)))
        c.fact(z3.Implies(z3.Not(b_), z3.And(0 <= w, w < a.length, z3.Not(ea(w)))))
        ln_ = a.length
        c.rank_facts.append(lambda t: z3.Implies(z3.And(b_, 0 <= t, t < ln_), ea(t)))
        tab[key] = b_
    return mkb(tab[key])


def forall_seq(n, cond):
    """do all elements 0 <= k < n satisfy cond(k) (z3 Bool)?"""
    c = ctx()
    m = lit(I(norm(I(n))))
    if m is not None:
        r = True
        for k in range(m):
            r = vand(r, mkb(cond(z3.IntVal(k))))
        return r
    n = I(n)
    k = T.fresh("k")
    with c.assuming(k >= 0, k < n):
        e = cond(k)
        if c.valid(e):
            return True
    if mentions(e, c.r) or mentions(n, c.r):
        raise Unsupported("all/any of a comparison that depends on the process")
    key = e.sexpr().replace(str(k), "K") + "|" + n.sexpr()
    tab = c.mem.setdefault("forall", {})
    if key not in tab:
        tab[key] = z3.Bool(f"forall{len(tab)}")
    if c.fork(tab[key]):
        b = tab[key]
        c.rank_facts.append(lambda t: z3.Implies(z3.And(b, 0 <= t, t < n), z3.substitute(e, (k, t))))
        return True
    w = T.fresh("w")
    c.fact(z3.And(0 <= w, w < n, z3.Not(z3.substitute(e, (k, w)))))
    return False


def forall_nested(sl, cond):
    """do all numbers v in a list (one entry per process) of lists satisfy cond(v)?"""
    c = ctx()
    K, J = T.fresh("k"), T.fresh("j")
    with c.assuming(K >= 0, K < sl.length):
        inner = sl.fn(K)
        ln = I(inner.length)
        with c.assuming(J >= 0, J < ln):
            val = I(inner.fn(J))
            e = cond(val)
            if c.valid(e):
                return True
    if mentions(e, c.r):
        raise Unsupported("all/any of a comparison that depends on the process")
    same = z3.Bool("nested!" + e.sexpr().replace(str(J), "J").replace(str(K), "K"))
    if c.fork(same):
        d = val
        if not (z3.is_app(d) and d.num_args() == 2 and d.arg(0).eq(K) and d.arg(1).eq(J)):
            raise Unsupported("comparison of the numbers in a nested list")

        def fact(a, b):
            return [z3.Implies(z3.And(0 <= a, a < sl.length, 0 <= b, b < z3.substitute(ln, (K, a))), z3.substitute(e, (K, a), (J, b)))]
        c.app_schemas.setdefault(d.decl().name(), []).append(fact)
        return True
    k1, j1 = T.fresh("k"), T.fresh("j")
    sub = ((K, k1), (J, j1))
    c.fact(k1 >= 0, k1 < sl.length, j1 >= 0, j1 < z3.substitute(ln, (K, k1)), z3.Not(z3.substitute(e, *sub)))
    return False


def slice_bounds(s, n):
    """-> (start, length, step) for a sequence of length n (terms)"""
    c = ctx()
    n = mk(I(n))
    st = 1 if s.step is None else s.step
    if not is_int(st) or st == 0:
        raise Unsupported("slice step")

    def clamp(x, lo, hi):
        # x python int or SInt; negative counts from the end
        if is_int(x):
            if x >= 0:
                return imin(x, hi)
            return imax(n + x, lo)
        if c.valid(x.t >= 0):
            return imin(x, hi)
        if c.valid(x.t < 0):
            return imax(n + x, lo)
        y = ite_int(x.t < 0, n + x, x)
        return imax(imin(y, hi), lo)

    if st > 0:
        a = 0 if s.start is None else clamp(_idx(s.start), 0, n)
        b = n if s.stop is None else clamp(_idx(s.stop), 0, n)
        d = b - a
        if st != 1:
            d = int_divmod(imax(d, 0) + (st - 1), st)[0]
            return a, d, st
        return a, imax(d, 0), 1
    if st == -1 and s.start is None and s.stop is None:
        return n - 1, n, -1
    raise Unsupported("negative slice step")


def _idx(x):
    from .sarr import SymArr
    if isinstance(x, (int, SInt)):
        return x
    if isinstance(x, SymArr):
        raise Unsupported("array as slice bound")
    if isinstance(x, SNum):
        raise TypeError("slice indices must be integers")
    if isinstance(x, float):
        raise TypeError("slice indices must be integers")
    return x


def repeat(l, n):
    if is_int(n):
        return type(l)(list(l) * n)
    if len(l) == 1:
        return SymList(I(n), lambda k, v=l[0]: v)
    raise Unsupported("sequence repetition")


def py_len(x):
    from .sarr import SymArr, IntArr, SymSet
    if isinstance(x, SymList):
        return mk(x.length)
    if isinstance(x, IntArr):
        return mk(x.length)
    if isinstance(x, SymSet):
        return x.length()
    if isinstance(x, SymArr):
        if not x.shape:
            raise TypeError("len() of unsized object")
        return mk(x.shape[0])
    if isinstance(x, TList) and x.sym is not None:
        return mk(x.sym.length)
    f = getattr(type(x), "__sym_len__", None)
    if f is not None:
        return f(x)
    return len(x)


class SymRange:
    _sym = True

    def __init__(self, a, b, st=1):
        self.a, self.b, self.st = a, b, st

    @property
    def length(self):
        d = imax(self.b - self.a, 0)
        if self.st == 1:
            return I(d)
        if self.st == -1:
            return I(imax(self.a - self.b, 0))
        raise Unsupported("range step")

    def at(self, k):
        return mk(I(self.a) + I(k) * self.st)

    def __iter__(self):
        n = norm(self.length)
        if isinstance(n, int):
            return iter([self.at(z3.IntVal(k)) for k in range(n)])
        raise Unsupported("iteration over a symbolic range")

    def __sym_len__(self):
        return mk(self.length)


def py_range(*a):
    if all(is_int(x) for x in a):
        return range(*a)
    for x in a:
        if not isinstance(x, (int, SInt)):
            raise TypeError(f"{type(x).__name__} object cannot be interpreted as an integer")
    if len(a) == 1:
        return SymRange(0, a[0])
    if len(a) == 2:
        return SymRange(a[0], a[1])
    if not is_int(a[2]):
        raise Unsupported("range step")
    return SymRange(*a)


# ------------------------------------------------------------------ numbers
class SNum:
    """numeric (real or complex) scalar"""
    __slots__ = ("p", "dt")
    _sym = True
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, p, dt=None):
        self.p = p
        self.dt = dt or ("float64" if p.is_real() else "complex128")

    @staticmethod
    def of(x):
        from .sarr import SymArr
        if isinstance(x, SNum):
            return x
        if isinstance(x, SBool):
            raise Unsupported("bool as number")
        if isinstance(x, SInt):
            return SNum(D.from_int(x.t), "int64")
        if isinstance(x, (int, float, complex, Fraction)):
            return SNum(D.const(x), "complex128" if isinstance(x, complex) else ("int64" if isinstance(x, int) else "float64"))
        if isinstance(x, SymArr):
            if len(x.shape):
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            return SNum(x.fn()(()), x.dtype.name)
        raise TypeError(f"not a number: {x!r}")

    @property
    def dtype(self):
        from .sarr import DT
        return DT(self.dt)

    def _b(self, o, f, dt=None):
        from .sarr import SymArr, promote
        if isinstance(o, SymArr) and len(o.shape):
            return NotImplemented
        try:
            o = SNum.of(o)
        except TypeError:
            return NotImplemented
        return SNum(f(self.p, o.p), dt or promote(self.dt, o.dt))

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._b(o, lambda a, b: a * D.inv(b))
    def __rtruediv__(self, o): return self._b(o, lambda a, b: b * D.inv(a))
    def __pow__(self, o): return self._b(o, lambda a, b: D.power(a, b))
    def __rpow__(self, o): return self._b(o, lambda a, b: D.power(b, a))
    def __neg__(self): return SNum(-self.p, self.dt)
    def __pos__(self): return self

    def __abs__(self):
        from .sarr import real_of
        return SNum(D.absv(self.p), real_of(self.dt))

    def conj(self): return SNum(self.p.conj(), self.dt)
    conjugate = conj
    def item(self): return self
    def copy(self): return self

    def astype(self, dt):
        from .sarr import DT
        return SNum(self.p, DT(dt).name)

    def sum(self): return self

    @property
    def real(self):
        from .sarr import real_of
        return SNum(D.realpart(self.p), real_of(self.dt))

    def _cmp(self, o, op):
        try:
            o = SNum.of(o)
        except TypeError:
            return NotImplemented
        d = self.p - o.p
        if d.is_const():
            v = d.const()
            return {"<": v[0] < 0, "<=": v[0] <= 0, ">": v[0] > 0, ">=": v[0] >= 0, "==": v == D.ZERO, "!=": v != D.ZERO}[op]
        # canonical atom:  d > 0
        items = sorted(d.m.items())
        lead = items[0][1][0]
        neg = lead < 0
        e = -d if neg else d
        tab = _cmp_table
        k = e.key()
        if k not in tab:
            tab[k] = (z3.Bool(f"gt0!{len(tab)}"), z3.Bool(f"eq0!{len(tab)}"), e)
        gt, eq, _ = tab[k]
        ctx().fact(z3.Not(z3.And(gt, eq)))
        if D.is_nonneg(e):
            ctx().fact(z3.Or(gt, eq))
        pos, zero = (z3.And(z3.Not(gt), z3.Not(eq)), eq) if neg else (gt, eq)
        return mkb({"<": z3.And(z3.Not(pos), z3.Not(zero)), "<=": z3.Not(pos), ">": pos, ">=": z3.Or(pos, zero), "==": zero, "!=": z3.Not(zero)}[op])

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple)):
            return False
        return self._cmp(o, "==")

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple)):
            return True
        return self._cmp(o, "!=")

    __hash__ = object.__hash__

    def __bool__(self):
        return bool(self._cmp(0, "!="))

    def __repr__(self): return f"SNum({self.p})"
    def __format__(self, s): return repr(self)


_cmp_table = {}
Number.register(SNum)
