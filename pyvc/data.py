"""Data layer: polynomials over array elements and scalars in a commutative ring with involution.

A value is a polynomial with Gaussian-rational coefficients over *atoms*:
  leaf   name(int args...)          an element of an input array / an input scalar (real or complex)
  fn     head(polys..., int args)   an uninterpreted numeric function (abs, sqrt, inv, pow, ...)
  bind   sum/max/min over index variables with ranges and a guard
Machine floats are treated as exact numbers (stated assumption)."""
from __future__ import annotations
from fractions import Fraction
import os
import itertools
import z3
from . import terms as T
from .terms import I, norm, subst, mentions, keep
from .engine import ctx, Unsupported

_table = {}
_byid = []


class Atom:
    __slots__ = ("id", "kind", "head", "args", "polys", "conj", "real", "vars", "guard", "body", "nonneg", "depth")

    def __repr__(self):
        c = "~" if self.conj else ""
        if self.kind == "bind":
            return f"{self.head}[{','.join(str(v) + '<' + str(n) for v, n in self.vars)}|{list(self.guard)}]({self.body})"
        a = [str(x) for x in self.args] + [repr(p) for p in self.polys]
        return f"{c}{self.head}({','.join(a)})" if a else f"{c}{self.head}"


def poly_depth(p):
    return max((_byid[a].depth for k in p.m for a in k), default=0)


def _intern(kind, head, args=(), polys=(), conj=False, real=True, vars=(), guard=(), body=None):
    args = tuple(I(norm(a)) for a in args)
    depth = max((poly_depth(p) for p in polys), default=0)
    if kind == "bind":
        # bound variables get canonical names (by nesting depth and position)
        depth = poly_depth(body) + 1
        cn = [z3.Int(f"$b{depth}_{j}") for j in range(len(vars))]
        pr = [(v, n) for (v, _), n in zip(vars, cn) if not v.eq(n)]
        if pr:
            vars = tuple((n, I(norm(subst(I(ln), pr)))) for (v, ln), n in zip(vars, cn))
            guard = tuple(z3.simplify(z3.substitute(g, *pr)) for g in guard)
            body = body.subst(pr)
    for a in args:
        keep(a)
    key = (kind, head, tuple(a.get_id() for a in args), tuple(p.key() for p in polys), conj and not real, real,
           tuple((v.get_id(), n.get_id()) for v, n in vars), tuple(g.get_id() for g in guard), body.key() if body is not None else None)
    a = _table.get(key)
    if a is None:
        a = Atom()
        a.id = len(_byid)
        a.kind, a.head, a.args, a.polys, a.conj, a.real = kind, head, args, tuple(polys), bool(conj and not real), real
        a.vars, a.guard, a.body = tuple(vars), tuple(guard), body
        a.depth = depth
        for v, n in vars:
            keep(v), keep(n)
        for g in guard:
            keep(g)
        _table[key] = a
        _byid.append(a)
    return a


ZERO = (Fraction(0), Fraction(0))
ONE = (Fraction(1), Fraction(0))


def _cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def _cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


class Poly:
    __slots__ = ("m", "_key")

    def __init__(self, m=None):
        self.m = m or {}
        self._key = None

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.m.items()))
        return self._key

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key() == o.key()

    def is_const(self):
        return all(not k for k in self.m)

    def const(self):
        return self.m.get((), ZERO)

    def __add__(self, o):
        r = dict(self.m)
        for k, c in o.m.items():
            v = _cadd(r.get(k, ZERO), c)
            if v == ZERO:
                r.pop(k, None)
            else:
                r[k] = v
        return Poly(r)

    def __neg__(self):
        return Poly({k: (-c[0], -c[1]) for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                k = _mono_mul(k1, k2)
                if len(k) > 1:
                    sq = _square_root_pair(k)
                    if sq is not None:
                        t = Poly({sq[1]: _cmul(c1, c2)}) * sq[0]
                        for kk, cc in t.m.items():
                            v = _cadd(r.get(kk, ZERO), cc)
                            if v == ZERO:
                                r.pop(kk, None)
                            else:
                                r[kk] = v
                        continue
                v = _cadd(r.get(k, ZERO), _cmul(c1, c2))
                if v == ZERO:
                    r.pop(k, None)
                else:
                    r[k] = v
        return Poly(r)

    def conj(self):
        r = {}
        for k, c in self.m.items():
            k2 = tuple(sorted(conj_atom(_byid[a]) for a in k))
            r[k2] = (c[0], -c[1])
        return Poly(r)

    def is_real(self):
        return all(c[1] == 0 and all(_byid[a].real for a in k) for k, c in self.m.items()) or self == self.conj()

    def atoms(self):
        s = set()
        for k in self.m:
            s.update(k)
        return [_byid[a] for a in sorted(s)]

    def map_atoms(self, fn):
        """fn(atom) -> Poly or atom"""
        r = Poly()
        cache = {}
        for k, c in self.m.items():
            t = Poly({(): c})
            for a in k:
                if a not in cache:
                    v = fn(_byid[a])
                    if isinstance(v, Atom):
                        v = atom_poly(v)
                    cache[a] = v
                t = t * cache[a]
            r = r + t
        return r

    def subst(self, pairs):
        pairs = [(a, I(b)) for a, b in pairs]
        if not pairs or not self.m:
            return self
        return self.map_atoms(lambda a: subst_atom(a, pairs))

    def mentions(self, const):
        return any(atom_mentions(a, const) for a in self.atoms())

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for k, c in sorted(self.m.items()):
            cs = str(c[0]) if c[1] == 0 else f"({c[0]}+{c[1]}i)"
            fs = "*".join(repr(_byid[a]) for a in k)
            out.append(cs if not fs else (fs if cs == "1" else cs + "*" + fs))
        return " + ".join(out)


def atom_poly(a):
    return Poly({(a.id,): ONE})


def const(c):
    if isinstance(c, complex):
        v = (Fraction(c.real), Fraction(c.imag))
    elif isinstance(c, float):
        if c != c or c in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant in data")
        f = Fraction(c)
        # decimal literals such as 0.1 or 1/12 denote the nearby rational
        g = f.limit_denominator(10 ** 6)
        v = (g if abs(g - f) <= abs(f) * Fraction(1, 2 ** 50) else f, Fraction(0))
    else:
        v = (Fraction(c), Fraction(0))
    return Poly({(): v}) if v != ZERO else Poly()


def leaf(name, args=(), real=True):
    return atom_poly(_intern("leaf", name, args, real=real))


def conj_atom(a):
    """id of the conjugate"""
    if a.real:
        return a.id
    if a.kind == "leaf":
        return _intern("leaf", a.head, a.args, conj=not a.conj, real=False).id
    if a.kind == "bind":
        return _intern("bind", a.head, vars=a.vars, guard=a.guard, body=a.body.conj(), real=a.body.is_real() if a.head == "sum" else True).id
    if a.head == "inv":
        q = inv(a.polys[0].conj())
        return _single(q)
    return _intern(a.kind, a.head, a.args, a.polys, conj=not a.conj, real=False).id


def _single(p):
    ks = list(p.m.items())
    if len(ks) == 1 and ks[0][1] == ONE and len(ks[0][0]) == 1:
        return ks[0][0][0]
    raise Unsupported("conjugate of inverse")


def _mono_mul(k1, k2):
    k = k1 + k2
    if not k1 or not k2:
        return k
    # cancel x * inv(x)
    if any(_byid[a].head == "inv" for a in k) or any(_byid[a].head == "sqrt" for a in k):
        k = list(k)
        changed = True
        while changed:
            changed = False
            for i, a in enumerate(k):
                A = _byid[a]
                if A.kind == "fn" and A.head == "inv":
                    b = A.polys[0]
                    ks = list(b.m.items())
                    if len(ks) == 1 and ks[0][1] == ONE and len(ks[0][0]) == 1 and ks[0][0][0] in k:
                        k.remove(a)
                        k.remove(ks[0][0][0])
                        changed = True
                        break
    return tuple(sorted(k))


def _square_root_pair(k):
    """sqrt(x) * sqrt(x) = x for x >= 0"""
    for i in range(len(k) - 1):
        if k[i] == k[i + 1]:
            A = _byid[k[i]]
            if A.kind == "fn" and A.head == "sqrt" and is_nonneg(A.polys[0]):
                return A.polys[0], k[:i] + k[i + 2:]
    return None


def atom_mentions(a, const):
    if any(mentions(t, const) for t in a.args):
        return True
    if any(p.mentions(const) for p in a.polys):
        return True
    if a.kind == "bind":
        if any(mentions(n, const) for _, n in a.vars) or any(mentions(g, const) for g in a.guard):
            return True
        return a.body.mentions(const)
    return False


def subst_atom(a, pairs):
    if a.kind == "leaf":
        if not a.args:
            return a
        return _intern("leaf", a.head, [subst(t, pairs) for t in a.args], conj=a.conj, real=a.real)
    if a.kind == "fn":
        return rebuild_fn(a, [subst(t, pairs) for t in a.args], [p.subst(pairs) for p in a.polys])
    if a.kind == "bind":
        # rename bound variables apart
        nv = [T.fresh("b") for _ in a.vars]
        pr = pairs + [(v, b) for (v, _), b in zip(a.vars, nv)]
        lens = [I(norm(subst(n, pairs))) for _, n in a.vars]
        # lengths may depend on earlier bound variables
        lens = [I(norm(subst(n, [(v, b) for (v, _), b in zip(a.vars, nv)]))) for n in lens]
        return _intern("bind", a.head, vars=list(zip(nv, lens)), guard=[z3.simplify(z3.substitute(g, *[(x, I(y)) for x, y in pr])) for g in a.guard],
                       body=a.body.subst(pr), real=a.real)
    raise Unsupported(a.kind)


def rebuild_fn(a, args, polys):
    if a.head == "inv":
        return inv(polys[0])
    if a.head == "abs":
        return absv(polys[0])
    if a.head == "sqrt":
        return sqrt(polys[0])
    if a.head == "pow":
        return power(polys[0], polys[1])
    if a.head == "nz":
        return nonzero(polys[0])
    if a.head == "int":
        return from_int(args[0])
    return atom_poly(_intern(a.kind, a.head, args, polys, conj=a.conj, real=a.real))


# ------------------------------------------------------------------ functions
def fn(head, polys, args=(), real=True):
    return atom_poly(_intern("fn", head, args, polys, real=real))


def from_int(t):
    """integer term as data value"""
    v = norm(t)
    if isinstance(v, int):
        return const(v)
    r = Poly()
    for m, c in T.ipoly(v).items():
        x = const(c)
        for a in m:
            x = x * atom_poly(_intern("fn", "int", [T._atoms[a]]))
        r = r + x
    return r


def inv(p):
    if p.is_const():
        c = p.const()
        if c == ZERO:
            raise ZeroDivisionError("division by zero")
        n = c[0] * c[0] + c[1] * c[1]
        return Poly({(): (c[0] / n, -c[1] / n)})
    items = sorted(p.m.items())
    if len(items) == 1:
        k, c = items[0]
        r = inv(Poly({(): c}))
        for a in k:
            A = _byid[a]
            if A.kind == "fn" and A.head == "inv":
                r = r * A.polys[0]
            else:
                r = r * atom_poly(_intern("fn", "inv", (), [atom_poly(A)], real=A.real))
        return r
    lead = items[0][1]
    r = inv(Poly({(): lead}))
    q = p * r
    return r * atom_poly(_intern("fn", "inv", (), [q], real=q.is_real()))


_nonneg = set()
_modulus = {}


def declare_nonneg(p):
    """only for values nonnegative by construction (a sum of squared moduli)"""
    _nonneg.add(p.key())
    return p


def is_nonneg(p):
    """syntactic: value is certainly a real number >= 0"""
    if _nonneg and p.key() in _nonneg:
        return True
    for k, c in p.m.items():
        if c[1] != 0 or c[0] < 0:
            return False
        cnt = {}
        for a in k:
            cnt[a] = cnt.get(a, 0) + 1
        for a, n in cnt.items():
            A = _byid[a]
            if A.real and n % 2 == 0:
                continue
            if A.kind == "fn" and A.head in ("abs", "sqrt", "nz"):
                continue
            if A.kind == "fn" and A.head == "inv" and is_nonneg(A.polys[0]):
                continue
            if A.kind == "fn" and A.head == "pow" and is_nonneg(A.polys[0]):
                continue
            if A.kind == "bind" and is_nonneg(A.body):
                continue
            if A.kind == "leaf" and A.head.startswith("pos:"):
                continue
            # x * conj(x)
            if not A.real and cnt.get(conj_atom(A), 0) == n:
                continue
            return False
    return True


def absv(p):
    if p.is_const():
        c = p.const()
        if c[1] == 0:
            return Poly({(): (abs(c[0]), Fraction(0))}) if c[0] else Poly()
    if is_nonneg(p):
        return p
    if p.key() in _modulus:
        return _modulus[p.key()]
    items = sorted(p.m.items())
    if len(items) == 1:
        k, c = items[0]
        if c[1] == 0:
            r = Poly({(): (abs(c[0]), Fraction(0))})
            for a in k:
                A = _byid[a]
                if A.kind == "fn" and A.head == "pow":
                    r = r * power(absv(A.polys[0]), A.polys[1])
                elif A.kind == "fn" and A.head == "inv":
                    r = r * inv(absv(A.polys[0]))
                elif is_nonneg(atom_poly(A)):
                    r = r * atom_poly(A)
                else:
                    ca = conj_atom(A)
                    base = min(A.id, ca)
                    r = r * atom_poly(_intern("fn", "abs", (), [atom_poly(_byid[base])]))
            return r
    # |p| = |-p| = |conj p|
    p = min((p, -p, p.conj(), -p.conj()), key=lambda q: q.key())
    return fn("abs", [p])


def sqrt(p):
    if p.is_const() and p.const()[1] == 0 and p.const()[0] >= 0:
        f = p.const()[0]
        import math
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return Poly({(): (Fraction(n, d), Fraction(0))}) if n else Poly()
    items = sorted(p.m.items())
    if len(items) == 1:
        k, c = items[0]
        if len(k) == 2 and k[0] == k[1] and c == ONE and is_nonneg(atom_poly(_byid[k[0]])):
            return atom_poly(_byid[k[0]])
    return fn("sqrt", [p])


def power(p, e):
    """p ** e"""
    if not p.is_const() and len(p.m) == 1:
        (k, c), = p.m.items()
        if c == ONE and len(k) == 1:
            A = _byid[k[0]]
            if A.kind == "fn" and A.head == "pow" and is_nonneg(A.polys[0]):
                return power(A.polys[0], A.polys[1] * e)
            if A.kind == "fn" and A.head == "sqrt" and is_nonneg(A.polys[0]):
                return power(A.polys[0], e * const(Fraction(1, 2)))
    if e.is_const() and e.const()[1] == 0:
        q = e.const()[0]
        if q.denominator == 1 and 0 <= q <= 6:
            r = const(1)
            for _ in range(int(q)):
                r = r * p
            if q >= 2 and len(p.m) > 1:
                # |p^q| = |p|^q, with |p|^2 = p conj(p)
                m = const(1)
                for _ in range(int(q) // 2):
                    m = m * p * p.conj()
                if q % 2:
                    m = m * absv(p)
                _modulus[r.key()] = m
                if q % 2 == 0:
                    declare_nonneg(m)
                    if r.is_real() and p.is_real():
                        declare_nonneg(r)
            return r
        if q == Fraction(1, 2):
            return sqrt(p)
        if q.denominator == 1 and -6 <= q < 0:
            return inv(power(p, -e))
    if e == const(1):
        return p
    return fn("pow", [p, e], real=p.is_real())


def nonzero(p):
    if p.is_const():
        return const(0 if p.const() == ZERO else 1)
    items = sorted(p.m.items())
    lead = items[0][1]
    q = p * inv(Poly({(): lead}))
    # |x|, conj(x) are non-zero iff x is
    if len(items) == 1 and len(items[0][0]) == 1:
        A = _byid[items[0][0][0]]
        if A.kind == "fn" and A.head == "abs":
            return nonzero(A.polys[0])
        if not A.real:
            q = atom_poly(_byid[min(A.id, conj_atom(A))])
    return fn("nz", [q])


def realpart(p):
    if p.is_real():
        return p
    return (p + p.conj()) * const(Fraction(1, 2))


# ------------------------------------------------------------------ binders
def bind(head, lens, body, guard0=()):
    """head over index variables; lens: list of terms or callables of the previous variables;
    body: callable(list of vars)->Poly (may fork)"""
    c = ctx()
    # a literal number of terms is written out
    for j, n in enumerate(lens):
        n = None if callable(n) else norm(I(n))
        if isinstance(n, int) and n <= 8:
            parts = []
            for v in range(n):
                ins = lambda vs, v=v: list(vs[:j]) + [z3.IntVal(v)] + list(vs[j:])
                l2 = list(lens[:j]) + [(lambda vs, l=l, ins=ins: l(ins(vs))) if callable(l) else l for l in lens[j + 1:]]
                parts.append(bind(head, l2, lambda vs, ins=ins: body(ins(vs)), guard0) if l2 else body(ins([])))
            if head == "sum":
                out = Poly()
                for p in parts:
                    out = out + p
                return out
            if parts:
                return combine(head, parts)
    vs, lt = [], []
    conds = []
    for n in lens:
        v = T.fresh("b")
        if callable(n):
            n = n(list(vs))
        n = I(norm(I(n)))
        vs.append(v)
        lt.append(n)
        conds += [v >= 0, v < n]
    bound = list(vs)

    def run():
        with c.assuming(*conds, *guard0):
            return body(vs)

    leaves = c.cases(run, bound)
    vars_ = list(zip(vs, lt))
    if head == "sum":
        out = Poly()
        merged = _merge_leaves(leaves)
        for g, p in merged:
            out = out + _sum_normal(vars_, tuple(guard0) + tuple(g), p)
        return out
    # max / min
    if len(leaves) == 1 and not leaves[0][0]:
        return _minmax(head, vars_, tuple(guard0), leaves[0][1])
    ps = {p.key() for _, p in leaves}
    if len(ps) == 1:
        return _minmax(head, vars_, tuple(guard0), leaves[0][1])
    # keep as a set of guarded leaves
    atoms = [_minmax(head, vars_, tuple(guard0) + tuple(g), p) for g, p in leaves]
    return combine(head, atoms)


def _merge_leaves(leaves):
    """leaves with equal polynomials merge when a single decision separates them"""
    if len({p.key() for _, p in leaves}) == 1:
        return [((), leaves[0][1])]
    return merge_split(leaves)


def _complement(x, y):
    return (z3.is_not(x) and x.arg(0).eq(y)) or (z3.is_not(y) and y.arg(0).eq(x))


def merge_split(leaves):
    out = [(tuple(g), p) for g, p in leaves]
    changed = True
    while changed:
        changed = False
        for i in range(len(out)):
            for j in range(i + 1, len(out)):
                (g, p), (h, q) = out[i], out[j]
                if len(g) != len(h) or p.key() != q.key():
                    continue
                diff = [k for k in range(len(g)) if not g[k].eq(h[k])]
                if len(diff) == 1 and _complement(g[diff[0]], h[diff[0]]):
                    out[i] = (g[:diff[0]] + g[diff[0] + 1:], p)
                    del out[j]
                    changed = True
                    break
            if changed:
                break
    return out


def combine(head, polys):
    ps = []
    for p in polys:
        if p not in ps:
            ps.append(p)
    if len(ps) == 1:
        return ps[0]
    ps.sort(key=lambda p: p.key())
    return fn(head + "of", ps)


def opened(A, names=None):
    """variables, guard and body of a binder, with fresh bound variables"""
    nv = names or [T.fresh("b") for _ in A.vars]
    pr = [(v, b) for (v, _), b in zip(A.vars, nv)]
    return ([(b, I(norm(subst(n, pr)))) for (_, n), b in zip(A.vars, nv)], tuple(z3.substitute(g, *pr) for g in A.guard), A.body.subst(pr))


def _minmax(head, vars_, guard, p):
    # flatten max over max
    if len(p.m) == 1:
        (k, c), = p.m.items()
        if c == ONE and len(k) == 1:
            A = _byid[k[0]]
            if A.kind == "bind" and A.head == head:
                av, ag, ab = opened(A)
                return _flatten(head, list(vars_) + av, tuple(guard) + ag, ab)
    return _flatten(head, list(vars_), guard, p)


def _sum_normal(vars_, guard, p):
    out = Poly()
    for k, co in p.m.items():
        inner, outer = [], []
        for a in k:
            A = _byid[a]
            if any(atom_mentions(A, v) for v, _ in vars_):
                inner.append(A)
            else:
                outer.append(A)
        t = Poly({(): co})
        for A in outer:
            t = t * atom_poly(A)
        # nested sum as the only inner factor: merge
        if len(inner) == 1 and inner[0].kind == "bind" and inner[0].head == "sum":
            av, ag, ab = opened(inner[0])
            s = _flatten("sum", list(vars_) + av, tuple(guard) + ag, ab)
        elif not inner and not guard and len(vars_) == 1:
            s = from_int(vars_[0][1])
        else:
            b = const(1)
            for A in inner:
                b = b * atom_poly(A)
            s = _flatten("sum", list(vars_), tuple(guard), b)
        out = out + t * s
    return out


def _at_least_zero(g):
    """integer term t with g <=> t >= 0, or None"""
    neg = False
    while z3.is_not(g):
        neg, g = not neg, g.arg(0)
    if not (z3.is_le(g) or z3.is_lt(g) or z3.is_ge(g) or z3.is_gt(g)) or not z3.is_int(g.arg(0)):
        return None
    a, b = g.arg(0), g.arg(1)
    if z3.is_ge(g) or z3.is_gt(g):
        a, b = b, a
    strict = z3.is_lt(g) or z3.is_gt(g)
    # a <= b  or  a < b
    if neg:
        a, b, strict = b, a, not strict
    return norm(b - a - (1 if strict else 0))


def _range_of(t, v):
    """(L, None) if t >= 0 <=> L <= v, (None, U) if t >= 0 <=> v < U, else (None, None)"""
    c = ctx()
    key = T._atom_key(v)
    a, rest = {}, {}
    for m, co in T.ipoly(I(t)).items():
        if key in m:
            m2 = list(m)
            m2.remove(key)
            a[tuple(m2)] = co
        else:
            rest[m] = co
    A, R = I(T.from_ipoly(a)), I(T.from_ipoly(rest))
    if len(a) != 1 or mentions(A, v) or mentions(R, v):
        return None, None
    (am, ac), = a.items()
    if am == () and ac in (1, -1):
        return (I(norm(-R)), None) if ac == 1 else (None, I(norm(R + 1)))
    lower = ac > 0
    pos = A if lower else I(norm(-A))
    if not c.valid(pos > 0):
        return None, None
    # R = q pos + m with q a polynomial and m within (-pos, pos)
    q, m = {}, {}
    for k, co in rest.items():
        left = list(k)
        ok = co % abs(ac) == 0
        for x in am:
            if x in left:
                left.remove(x)
            else:
                ok = False
        if ok:
            q[tuple(sorted(left))] = co // abs(ac)
        else:
            m[k] = co
    Q, M = I(T.from_ipoly(q)), I(T.from_ipoly(m))
    if c.valid(z3.And(M >= 0, M < pos)):
        return (I(norm(-Q)), None) if lower else (None, I(norm(Q + 1)))
    if c.valid(z3.And(M < 0, M >= -pos)):
        return (I(norm(1 - Q)), None) if lower else (None, Q)
    return None, None


def absorb_ranges(vars_, guard, body):
    """sum over v < n with L <= v: sum over v < n - L at L + v; with v < U: sum over v < U (where 0 <= L <= n, 0 <= U <= n)"""
    c = ctx()
    seen, gs = set(), []
    for g in guard:
        for x in (list(g.children()) if z3.is_and(g) else [g]):
            if x.get_id() not in seen:
                seen.add(x.get_id())
                gs.append(x)
    again = True
    while again:
        again = False
        for gi, g in enumerate(gs):
            t = _at_least_zero(g)
            if t is None:
                continue
            for vi, (v, n) in enumerate(vars_):
                if not mentions(t, v):
                    continue
                others = [w for w, _ in vars_ if not w.eq(v)]
                L, U = _range_of(t, v)
                b = L if U is None else U
                if b is None or any(mentions(b, w) for w in others):
                    continue
                if any(mentions(I(n), w) for w in others):
                    continue
                rest = gs[:gi] + gs[gi + 1:]
                if U is not None:
                    if c.valid(U >= I(n)):
                        gs = rest
                    elif c.valid(z3.And(U >= 0, U <= I(n))):
                        gs = rest
                        vars_ = vars_[:vi] + [(v, U)] + vars_[vi + 1:]
                    else:
                        continue
                else:
                    if c.valid(L <= 0):
                        gs = rest
                    elif c.valid(z3.And(L >= 0, L <= I(n))):
                        w = T.fresh("w")
                        new = I(norm(L + w))
                        gs = [z3.simplify(z3.substitute(x, (v, new))) for x in rest]
                        body = body.subst([(v, new)])
                        vars_ = [(w, I(norm(I(n) - L))) if j == vi else (u, I(norm(z3.substitute(I(m), (v, new))))) for j, (u, m) in enumerate(vars_)]
                    else:
                        continue
                again = True
                break
            if again:
                break
    return vars_, tuple(gs), body


def _flatten(head, vars_, guard, body):
    """sum over ranks k of sum over i < n(k) of f(S(k)+i)  =  sum over g < S(P) of f(g)
    (lemma partitioned_sum in /verif/lemmas; for max and min likewise)"""
    from . import values as V_
    c = ctx()
    if head == "sum" and guard:
        g0 = len(guard)
        vars_, guard, body = absorb_ranges(list(vars_), tuple(guard), body)
        if len(guard) < g0:
            return _sum_normal(vars_, guard, body)
    changed = True
    while changed:
        changed = False
        for ki, (k, nk) in enumerate(vars_):
            for ii, (i, ni) in enumerate(vars_):
                if ii == ki or not mentions(ni, k):
                    continue
                for base in c.bases:
                    if not isinstance(base, V_.Base):
                        base = V_.get_base(lambda t: z3.substitute(ni, (k, t)), nk, create=False)
                        if base is None:
                            continue
                    if not base.nonneg or not c.valid(nk == I(base.length)):
                        continue
                    fk = I(norm(base.f(k)))
                    if not (fk.eq(ni) or I(norm(ni - fk)).eq(z3.IntVal(0))):
                        continue
                    g = T.fresh("g")
                    new = norm(g - I(base.at(k)))
                    b2 = body.subst([(i, I(new))])
                    g2 = [z3.simplify(z3.substitute(x, (i, I(new)))) for x in guard]
                    rest = [v for j, v in enumerate(vars_) if j not in (ki, ii)]
                    rest = [(v, I(norm(z3.substitute(n, (i, I(new)))))) for v, n in rest]
                    if b2.mentions(k) or any(mentions(x, k) for x in g2) or any(mentions(n, k) for _, n in rest):
                        continue
                    vars_ = [(g, I(norm(I(base.at(I(base.length))))))] + rest
                    guard = tuple(g2)
                    body = b2
                    changed = True
                    break
                if changed:
                    break
            if changed:
                break
    real = body.is_real() if head == "sum" else True
    # canonical conj orientation is left as is
    return atom_poly(_intern("bind", head, vars=vars_, guard=guard, body=body, real=real))


# ------------------------------------------------------------------ equality
def prove_eq(p, q, depth=0):
    """'proved' | 'refuted' | 'unknown', info.  p, q in the current vocabulary."""
    c = ctx()
    d = p - q
    if not d.m:
        return "proved", None
    # unify atoms that are provably equal
    atoms = d.atoms()
    early = depth == 0 and sum(1 for a in atoms if a.kind != "leaf") >= 4
    if SELFTEST and depth == 0:      # the evaluation must never refute what is provable
        info = refuted_by_value(d)
        if info:
            return "refuted", info
    if early:
        info = refuted_by_value(d, 1)
        if info:
            return "refuted", info
    rep = {}
    reps = []
    for a in atoms:
        hit = None
        for b in reps:
            s = same_atom(a, b, depth)
            if s:
                hit = b
                break
        if hit is None:
            reps.append(a)
        else:
            rep[a.id] = hit
    if rep:
        d = d.map_atoms(lambda a: rep.get(a.id, a))
        if not d.m:
            return "proved", None
    # ask the solver, atoms as uninterpreted reals
    r = _solver_eq(d)
    if depth == 0 and r[0] in ("opaque", "unknown"):
        info = refuted_by_value(d)
        if info:
            return "refuted", info
    return r


SELFTEST = bool(os.environ.get("PYVC_SELFTEST"))


def refuted_by_value(d, rounds=6):
    from .evaluate import refute
    info = refute(d, rounds)
    if info:
        info = {**info, "terms": repr(d)[:700]}
    return info


def same_atom(a, b, depth):
    c = ctx()
    if a.id == b.id:
        return True
    if a.kind != b.kind or a.head != b.head or a.conj != b.conj:
        return False
    if depth > 4:
        return False
    if a.kind == "bind":
        return same_bind(a, b, depth)
    if len(a.args) != len(b.args) or len(a.polys) != len(b.polys):
        return False
    for x, y in zip(a.args, b.args):
        if not x.eq(y) and not c.valid(x == y):
            return False
    if a.head in ("maxof", "minof"):
        used = set()
        for x in a.polys:
            for j, y in enumerate(b.polys):
                if j not in used and prove_eq(x, y, depth + 1)[0] == "proved":
                    used.add(j)
                    break
            else:
                return False
        return True
    for x, y in zip(a.polys, b.polys):
        if prove_eq(x, y, depth + 1)[0] != "proved":
            return False
    return True


def same_bind(a, b, depth):
    c = ctx()
    if len(a.vars) != len(b.vars):
        return False
    n = len(a.vars)
    va, ga, ba = opened(a)
    conds = []
    for v, ln in va:
        conds += [v >= 0, v < ln]
    for perm in itertools.permutations(range(n)):
        names = [None] * n
        for i in range(n):
            names[perm[i]] = va[i][0]
        vb, gb, bb = opened(b, names)
        ok = True
        with c.assuming(*conds):
            for i in range(n):
                la, lb = va[i][1], vb[perm[i]][1]
                if not la.eq(lb) and not c.valid(la == lb):
                    ok = False
                    break
        if not ok:
            continue
        with c.assuming(*conds):
            Ga, Gb = z3.And(*ga) if ga else z3.BoolVal(True), z3.And(*gb) if gb else z3.BoolVal(True)
            if not Ga.eq(Gb) and not c.valid(Ga == Gb):
                continue
            with c.assuming(Ga):
                if prove_eq(ba, bb, depth + 1)[0] == "proved":
                    return True
                if a.real and prove_eq(ba, bb.conj(), depth + 1)[0] == "proved":
                    return True
    return False


_real_fn = {}


def _enc(a):
    """real-valued encoding (re, im) of an atom; second result: exact?"""
    nm = f"{a.head}"
    if a.kind == "leaf" and not a.polys:
        dom = [z3.IntSort()] * len(a.args)
        if a.args:
            re = z3.Function(f"re:{nm}", *dom, z3.RealSort())(*a.args)
            im = z3.Function(f"im:{nm}", *dom, z3.RealSort())(*a.args)
        else:
            re, im = z3.Real(f"re:{nm}"), z3.Real(f"im:{nm}")
        if a.real:
            return re, None, True
        return re, (-im if a.conj else im), True
    base = a
    re = z3.Real(f"opq{base.id}")
    if a.real:
        return re, None, False
    return re, z3.Real(f"opqi{base.id}"), False


def _solver_eq(d):
    c = ctx()
    exact = True
    re_t, im_t = z3.RealVal(0), z3.RealVal(0)
    for k, co in d.m.items():
        x, y = z3.RealVal(str(co[0])), (z3.RealVal(str(co[1])) if co[1] else None)
        for aid in k:
            ar, ai, ex = _enc(_byid[aid])
            exact = exact and ex
            nx = x * ar
            ny = None
            if ai is not None:
                ny = x * ai
                if y is not None:
                    nx = nx - y * ai
            if y is not None:
                ny = y * ar if ny is None else ny + y * ar
            x, y = nx, ny
        re_t = re_t + x
        if y is not None:
            im_t = im_t + y
    goal = z3.And(re_t == 0, im_t == 0)
    s = z3.Solver()
    s.set("timeout", 6000)
    g = c.to_base(goal)
    base = c.facts + c.pc + c.local_conds()
    inst = c._instances(base + [g])
    s.add(*base)
    s.add(*inst)
    s.add(z3.Not(g))
    import time as _t
    from .engine import STATS, model_str
    t0 = _t.time()
    r = str(s.check())
    STATS.queries += 1
    STATS.solver_time += _t.time() - t0
    STATS.by_backend["z3-real"] = STATS.by_backend.get("z3-real", 0) + 1
    if r == "unsat":
        return "proved", None
    if r == "sat":
        m = model_str(s.model())
        return ("refuted" if exact else "opaque"), {"difference": repr(d)[:1500], "model": m}
    return "unknown", {"difference": repr(d)[:1500]}
