"""Integer terms: z3 Int expressions, polynomial normal form, Python // and %, prefix sums."""
from __future__ import annotations
import itertools
import z3

_keep = []          # z3 asts whose ids are used as keys must stay alive


def keep(t):
    _keep.append(t)
    return t


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def I(x):
    """python int / SInt / z3 -> z3 Int term"""
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    t = getattr(x, "t", None)
    if isinstance(t, z3.ExprRef):
        return t
    raise TypeError(f"not an integer term: {x!r}")


def lit(t):
    """numeric value of a z3 int term, or None"""
    if isinstance(t, int):
        return int(t)
    if z3.is_int_value(t):
        return t.as_long()
    return None


# ---------------------------------------------------------------- normal form
# polynomial: dict {tuple(sorted atom keys): int}; atom key = ast id, table id -> term
_atoms = {}
_ipoly_cache = {}


def _atom_key(t):
    k = t.get_id()
    if k not in _atoms:
        _atoms[k] = keep(t)
    return k


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def ipoly(t):
    if isinstance(t, int):
        return {(): t} if t else {}
    key = t.get_id()
    r = _ipoly_cache.get(key)
    if r is not None:
        return r
    keep(t)
    v = lit(t)
    if v is not None:
        r = {(): v} if v else {}
    elif z3.is_add(t):
        r = {}
        for c in t.children():
            r = padd(r, ipoly(c))
    elif z3.is_sub(t):
        ch = t.children()
        r = ipoly(ch[0])
        for c in ch[1:]:
            r = padd(r, ipoly(c), -1)
    elif z3.is_mul(t):
        r = {(): 1}
        for c in t.children():
            r = pmul(r, ipoly(c))
    elif t.decl().kind() == z3.Z3_OP_UMINUS:
        r = padd({}, ipoly(t.children()[0]), -1)
    elif z3.is_app_of(t, z3.Z3_OP_ITE) and _truth(t.arg(0)) is not None:
        r = ipoly(t.arg(1) if _truth(t.arg(0)) else t.arg(2))
    else:
        r = {(_atom_key(t),): 1}
    _ipoly_cache[key] = r
    return r


def _truth(b):
    """value of a comparison of literals, or None"""
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    if z3.is_app(b) and b.num_args() == 2 and lit(b.arg(0)) is not None and lit(b.arg(1)) is not None:
        s = z3.simplify(b)
        return True if z3.is_true(s) else False if z3.is_false(s) else None
    return None


def from_ipoly(p):
    if not p:
        return z3.IntVal(0)
    out = []
    for m in sorted(p, key=lambda m: (len(m), m)):
        c = p[m]
        fs = [_atoms[a] for a in m]
        if not fs:
            out.append(z3.IntVal(c))
        else:
            x = fs[0]
            for f in fs[1:]:
                x = x * f
            if c != 1:
                x = z3.IntVal(c) * x
            out.append(x)
    r = out[0]
    for o in out[1:]:
        r = r + o
    return r


def norm(t):
    """normal form of an int term; python int if constant"""
    p = ipoly(t)
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return from_ipoly(p)


def const_offset(t):
    """t = base + c"""
    p = dict(ipoly(t))
    c = p.pop((), 0)
    return p, c


_mention_cache = {}


def consts_of(t):
    """names (ids) of uninterpreted constants in a term"""
    key = t.get_id()
    r = _mention_cache.get(key)
    if r is not None:
        return r
    keep(t)
    s = set()
    if z3.is_var(t):
        r = frozenset()
    elif t.num_args() == 0:
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            s.add(t.decl().name())
        r = frozenset(s)
    else:
        for c in t.children():
            s |= consts_of(c)
        r = frozenset(s)
    _mention_cache[key] = r
    return r


def mentions(t, const):
    if isinstance(t, int):
        return False
    return const.decl().name() in consts_of(t)


_apps_cache = {}


def apps_of(t):
    """all applications of uninterpreted functions (arity>0) in a term: dict id->term"""
    key = t.get_id()
    r = _apps_cache.get(key)
    if r is not None:
        return r
    keep(t)
    out = {}
    for c in t.children():
        out.update(apps_of(c))
    if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        out[key] = t
    _apps_cache[key] = out
    return out


def subst(t, pairs):
    """simultaneous substitution; pairs list of (const, term)"""
    if isinstance(t, int):
        return t
    ps = [(a, I(b)) for a, b in pairs]
    return z3.substitute(t, *ps)


# ---------------------------------------------------------------- normal form of formulas
_canon_cache = {}
_CMP = {z3.Z3_OP_LE: lambda a, b: a <= b, z3.Z3_OP_LT: lambda a, b: a < b, z3.Z3_OP_GE: lambda a, b: a >= b, z3.Z3_OP_GT: lambda a, b: a > b, z3.Z3_OP_EQ: lambda a, b: a == b}
_TRUE, _FALSE = z3.BoolVal(True), z3.BoolVal(False)


def canon(t):
    """equivalent formula with normalised integer terms, decided comparisons folded"""
    key = t.get_id()
    r = _canon_cache.get(key)
    if r is None:
        keep(t)
        r = _canon_cache[key] = keep(_canon(t))
        _canon_cache[r.get_id()] = r
    return r


def _canon(t):
    if t.num_args() == 0 or z3.is_quantifier(t):
        return t
    k = t.decl().kind()
    ch0 = t.children()
    ch = [canon(x) for x in ch0]
    if z3.is_int(t) and k in _ARITH:
        return I(norm(t.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, ch0)) else t))
    if k in _CMP and z3.is_int(ch[0]):
        base, c = const_offset(ch[0] - ch[1])
        if not base:
            return z3.BoolVal(_CMP[k](c, 0))
        ms = sorted(base, key=lambda m: (len(m), m))
        op = k
        if base[ms[0]] < 0:
            base = {m: -v for m, v in base.items()}
            c = -c
            op = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT, z3.Z3_OP_EQ: k}[k]
        if op == z3.Z3_OP_LT:
            op, c = z3.Z3_OP_LE, c + 1
        elif op == z3.Z3_OP_GT:
            op, c = z3.Z3_OP_GE, c - 1
        return _CMP[op](from_ipoly(base), z3.IntVal(-c))
    if k == z3.Z3_OP_NOT:
        x = ch[0]
        return _FALSE if z3.is_true(x) else _TRUE if z3.is_false(x) else x.arg(0) if z3.is_not(x) else z3.Not(x)
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        unit, zero = (z3.is_true, z3.is_false) if k == z3.Z3_OP_AND else (z3.is_false, z3.is_true)
        out, ids = [], set()
        for x in ch:
            if zero(x):
                return x
            if unit(x) or x.get_id() in ids:
                continue
            ids.add(x.get_id())
            out.append(x)
        if not out:
            return _TRUE if k == z3.Z3_OP_AND else _FALSE
        return out[0] if len(out) == 1 else (z3.And if k == z3.Z3_OP_AND else z3.Or)(*out)
    if k == z3.Z3_OP_IMPLIES:
        a, b = ch
        if z3.is_false(a) or z3.is_true(b):
            return _TRUE
        return b if z3.is_true(a) else canon(z3.Not(a)) if z3.is_false(b) else z3.Implies(a, b)
    if k == z3.Z3_OP_ITE:
        a, x, y = ch
        if z3.is_true(a) or x.eq(y):
            return x
        return y if z3.is_false(a) else z3.If(a, x, y)
    if all(a.eq(b) for a, b in zip(ch, ch0)):
        return t
    return t.decl()(*ch)


# ---------------------------------------------------------------- nonlinear abstraction
_lin_cache = {}
_mon_of = {}


def linearize(t, cache, mons):
    """replace products of non-constants by fresh constants (named by the monomial)"""
    r, ms = _lin(t)
    for ids in ms:
        if ids not in mons:
            mons[ids] = _mon_of[ids]
    return r


_NOMON = frozenset()


def _lin(t):
    key = t.get_id()
    hit = _lin_cache.get(key)
    if hit is not None:
        return hit
    keep(t)
    ms = _NOMON
    if t.num_args() == 0:
        r = t
    elif z3.is_int(t) and t.decl().kind() in _ARITH:
        p = ipoly(t)
        acc = None
        for m in sorted(p, key=lambda m: (len(m), m)):
            c = p[m]
            if not m:
                x = z3.IntVal(c)
            else:
                at = []
                for a in m:
                    y, my = _lin(_atoms[a])
                    at.append(y)
                    ms = ms | my
                if len(at) == 1:
                    x = at[0]
                else:
                    ids = tuple(sorted(a.get_id() for a in at))
                    for a in at:
                        keep(a)
                    if ids not in _mon_of:
                        _mon_of[ids] = (keep(z3.Int("mono!" + "_".join(map(str, ids)))), at)
                    ms = ms | {ids}
                    x = _mon_of[ids][0]
                if c != 1:
                    x = z3.IntVal(c) * x
            acc = x if acc is None else acc + x
        r = acc if acc is not None else z3.IntVal(0)
    else:
        cs = t.children()
        ch = []
        same = True
        for c in cs:
            y, my = _lin(c)
            ch.append(y)
            if my:
                ms = ms | my
            same = same and (y is c or y.eq(c))
        r = t if same else t.decl()(*ch)
    keep(r)
    _lin_cache[key] = (r, ms)
    return r, ms


_ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS}


# ---------------------------------------------------------------- // and %
QDIV = z3.Function("qdiv", z3.IntSort(), z3.IntSort(), z3.IntSort())
RMOD = z3.Function("rmod", z3.IntSort(), z3.IntSort(), z3.IntSort())


def qdiv_axioms(a, b):
    q, r = QDIV(a, b), RMOD(a, b)
    ax = [z3.Implies(b > 0, z3.And(a == q * b + r, 0 <= r, r < b)),
          z3.Implies(z3.And(b > 0, a >= 0), z3.And(q >= 0, q <= a)),
          z3.Implies(z3.And(b > 0, a >= b), q >= 1),
          z3.Implies(z3.And(b > 0, 0 <= a, a < b), z3.And(q == 0, r == a))]
    return ax


_fresh = itertools.count()


def fresh(name="t"):
    return z3.Int(f"{name}!{next(_fresh)}")
