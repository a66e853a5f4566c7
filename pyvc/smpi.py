"""Symbolic MPI: one generic rank r of P; collectives combine the contributions of every rank.

Trusted model of mpi4py (stated assumption): allgather returns the list of the contributions in
rank order, allreduce their reduction, bcast the value of the root, Split groups by colour, and a
receive returns the object of the matching send."""
from __future__ import annotations
import z3
from . import terms as T, data as D, values as V, sarr
from .terms import I, norm, lit, is_int, mentions
from .engine import ctx, Unsupported, StageStop
from .values import mk, mkb, SInt, SBool, SNum, SymList, B
from .sarr import SymArr, IntArr, Placeholder, subst_value, new_array


class Op:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


SUM, MAX, MIN, PROD = Op("sum"), Op("max"), Op("min"), Op("prod")


def _has_placeholder(v):
    if isinstance(v, Placeholder):
        return True
    if isinstance(v, (tuple, list)):
        return any(_has_placeholder(x) for x in list.__iter__(v)) if isinstance(v, list) else any(_has_placeholder(x) for x in v)
    return False


def freeze(v):
    """value at the time of the call"""
    if isinstance(v, V.TList) and v.sym is None:
        return V.TList([freeze(x) for x in v])
    if isinstance(v, SymArr):
        return v.snapshot()
    if isinstance(v, IntArr):
        return v.copy()
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    if isinstance(v, list) and type(v) is list:
        return [freeze(x) for x in v]
    return v


def same_value(a, b):
    """syntactically the same contribution"""
    if a is b:
        return True
    if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
        return I(norm(I(a))).eq(I(norm(I(b))))
    if isinstance(a, SNum) and isinstance(b, SNum):
        return a.p == b.p and a.dt == b.dt
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and not getattr(a, "sym", None) and not getattr(b, "sym", None):
        a, b = list(a), list(b)
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and isinstance(a, (str, type(None))) and a == b


def mentions_r(v, r):
    """may the value depend on the rank?"""
    if isinstance(v, SInt):
        return mentions(v.t, r)
    if isinstance(v, (int, float, str, complex, type(None))):
        return False
    if isinstance(v, SNum):
        return v.p.mentions(r)
    return True


class SymComm:
    _sym = True

    def __init__(self, name="WORLD", rank=None, size=None, foreign=False, color=None, parent=None):
        c = ctx()
        self.name = name
        self._rank = mk(c.r) if rank is None else rank
        self._size = mk(c.P) if size is None else size
        self.foreign = foreign
        self.color = color          # k -> colour (value level)
        self.parent = parent

    # ------------------------------------------------------------ queries
    def Get_rank(self):
        if self.color is not None:
            raise Unsupported("rank inside a sub-communicator")
        return self._rank

    def Get_size(self):
        if self.color is not None:
            raise Unsupported("size of a sub-communicator")
        return self._size

    rank = property(lambda s: s.Get_rank())
    size = property(lambda s: s.Get_size())

    def __eq__(self, o):
        return self is o
    __hash__ = object.__hash__

    def __repr__(self):
        return f"<comm {self.name}>"

    # ------------------------------------------------------------ collectives
    def _sync(self, kind, v, detail=None):
        """-> function rank term -> contribution"""
        c = ctx()
        if c.loop_stack:
            raise Unsupported("collective inside a loop of symbolic length")
        if self.foreign:
            c.record("communicator", "refuted", {"what": f"{kind} on the default communicator instead of the one of the array"}, "trace")
            raise Unsupported("collective on a foreign communicator")
        v = freeze(v)
        n = c.nsync
        c.nsync += 1
        c.event(self.name, kind, detail)
        if not c.rank_dependent():
            if _has_placeholder(v):
                c.stage.need_sends = True
                raise StageStop()
            return lambda k: subst_value(v, [(c.r, k)])
        key = n
        defs = c.stage.defs.get(key)
        if defs is None:
            if _has_placeholder(v):
                c.stage.need_sends = True
                raise StageStop()
            c.stage.pending.setdefault(key, []).append((list(c.pc), v, (self.name, kind)))
            raise StageStop()
        parts = []
        uni = set(p.get_id() for p in c.pc if not mentions(p, c.r))
        for pcq, vq, ev in defs:
            rd = [p for p in pcq if mentions(p, c.r)]
            un = [p for p in pcq if not mentions(p, c.r) and p.get_id() not in uni]
            if un and not c.feasible(z3.And(*un)):
                continue
            if ev != (self.name, kind):
                # reported by the obligations of module comm; what follows is not meaningful
                raise Unsupported(f"{kind} on {self.name} meets {ev}")
            parts.append((rd, un, vq))
        r = c.r
        rk = id(defs)
        if ("stagefact", rk) not in c.mem:
            c.mem[("stagefact", rk)] = True
            alts = [z3.And(*(rd + un)) if rd + un else z3.BoolVal(True) for rd, un, _ in parts]
            whole = z3.Or(*alts) if len(alts) > 1 else alts[0]
            sf = lambda k: z3.substitute(whole, (r, I(k)))
            c.rank_facts.append(sf)
            c.shallow.add(sf)
            c.stage_facts.append((n, sf))

        if len(parts) > 1 and all(same_value(parts[0][2], p[2]) for p in parts[1:]):
            parts = parts[:1]

        def at(k):
            def go(j):
                rd, un, vq = parts[j]
                if j == len(parts) - 1:
                    return subst_value(vq, [(r, k)])
                cond = z3.substitute(z3.And(*(rd + un)), (r, I(k))) if rd + un else z3.BoolVal(True)
                return V.ite_value(cond, lambda: subst_value(vq, [(r, k)]), lambda: go(j + 1))
            return go(0)
        return at

    def allgather(self, v):
        at = self._sync("allgather", v)
        return SymList(I(ctx().P), lambda k: at(I(k)))

    def bcast(self, v, root=0):
        at = self._sync("bcast", v, I(norm(I(root))))
        if isinstance(v, Placeholder):
            return v
        return _thaw(at(I(root)))

    def allreduce(self, v, op=None):
        op = op or SUM
        c = ctx()
        at = self._sync(f"allreduce({op})", v)
        col = self.color
        return self._reduce(at, op, col)

    def _reduce(self, at, op, col):
        c = ctx()
        P = I(c.P)
        kap = V.KAPPA
        with c.assuming(kap >= 0, kap < P):
            v0 = at(kap)
        guard = (lambda k: B(V.values_equal(col(k), col(c.r)))) if col is not None else None

        def red(valf):
            """valf: k -> Poly"""
            def body(vs):
                k = vs[0]
                if guard is not None:
                    g = guard(k)
                    if not c.fork(g):
                        return None
                return valf(k)
            return reduce_over(op.name, P, body)
        if isinstance(v0, (int, SInt)) and not isinstance(v0, bool):
            if op is SUM and guard is None:
                return V.prefix_at(lambda k: I(at(k)), P, P)
            if op is SUM:
                return SNum(red(lambda k: D.from_int(I(at(k)))), "int64")
            raise Unsupported("reduction of integers")
        if isinstance(v0, (float, SNum)):
            return SNum(red(lambda k: SNum.of(at(k)).p), v0.dt if isinstance(v0, SNum) else "float64")
        if isinstance(v0, SymArr):
            for n in v0.tshape:
                if mentions(n, kap):
                    with c.assuming(kap >= 0, kap < P):
                        if not c.valid(n == T.subst(n, [(kap, c.r)])):
                            raise Unsupported("reduction of arrays of different shape")
            shape = [I(norm(T.subst(n, [(kap, c.r)]))) for n in v0.tshape]
            cont = lambda idx: red(lambda k: at(k).fn()(tuple(idx)))
            flat = None
            if v0.flat is not None and not any(mentions(n, kap) for n in v0.flat[0]):
                flat = (v0.flat[0], lambda idx: red(lambda k: at(k).flat[1](tuple(idx))))
            return new_array(shape, cont, v0.dtype, flat)
        raise Unsupported(f"allreduce of {type(v0).__name__}")

    def Allreduce(self, send, recv, op=None):
        op = op or SUM
        at = self._sync(f"Allreduce({op})", send)
        r = self._reduce(at, op, self.color)
        if isinstance(r, SNum):
            r = sarr.as_array(r)
        # same number of elements
        if not sarr.dim_eq(sarr.prod_terms(r.tshape), sarr.prod_terms(recv.tshape)):
            raise Unsupported("Allreduce buffers of different size")
        if r.dtype != recv.dtype:
            raise Unsupported("Allreduce buffers of different type")
        if r.ndim == 0:
            p = r.fn()(())
            recv._assign(new_array(recv.tshape, lambda idx: p, recv.dtype))
        else:
            recv._assign(sarr.reshape(r, tuple(mk(n) for n in recv.tshape)))

    def barrier(self):
        self._sync("barrier", None)
    Barrier = barrier

    def Split(self, color=0, key=0):
        c = ctx()
        at = self._sync("Split", color)
        return SymComm(f"{self.name}/sub", color=at, parent=self, foreign=self.foreign)

    def Dup(self):
        raise Unsupported("Dup")

    def gather(self, v, root=0):
        raise Unsupported("gather")

    def scatter(self, v, root=0):
        raise Unsupported("scatter")

    # ------------------------------------------------------------ point to point
    def send(self, v, dest, tag=0):
        c = ctx()
        self._p2p()
        v = freeze(v)
        if not c.fork(z3.And(I(dest) >= 0, I(dest) < c.P)):
            e = RuntimeError("MPI_ERR_RANK: invalid rank")
            e._model = True
            raise e
        k = c.mem.setdefault(("sends", self.name, tag), [0])
        c.event(self.name, "send", (I(dest), tag))
        if c.stage.sends is None:
            c.stage.sends_pending.append((list(c.pc), self.name, I(dest), tag, k[0], v, c.nsync))
        k[0] += 1

    def _p2p(self):
        c = ctx()
        if c.loop_stack:
            raise Unsupported("message inside a loop of symbolic length")
        if self.foreign:
            c.record("communicator", "refuted", {"what": "message on the default communicator instead of the one of the array"}, "trace")
            raise Unsupported("message on a foreign communicator")
        if self.color is not None:
            raise Unsupported("message in a sub-communicator")

    def recv(self, buf=None, source=None, tag=0, status=None):
        c = ctx()
        self._p2p()
        s = I(norm(I(source)))
        if not c.fork(z3.And(s >= 0, s < c.P)):
            e = RuntimeError("MPI_ERR_RANK: invalid rank")
            e._model = True
            raise e
        cnt = c.mem.setdefault(("recvs", self.name, tag), [0])
        j = cnt[0]
        cnt[0] += 1
        c.event(self.name, "recv", (s, tag))
        if c.stage.sends is None:
            c.stage.saw_recv = True
            return Placeholder()
        r = c.r
        parts = []
        for pcq, nm, dest, tg, jj, v, nsy in c.stage.sends:
            if nm != self.name or tg != tag or jj != j:
                continue
            cond = z3.And(*[z3.substitute(p, (r, s)) for p in pcq], z3.substitute(dest, (r, s)) == r)
            if not c.feasible(cond):
                continue
            if isinstance(v, Placeholder):
                raise Unsupported("message that depends on a received one")
            parts.append((cond, v, nsy))
        if not parts and c.stage.incomplete:
            raise Unsupported("receive without a visible send")
        if not parts:
            c.record("communication: every receive has a matching message", "refuted", {"what": f"recv tag {tag} from {s}", "pc": [str(x) for x in c.pc]}, "trace")
            raise Unsupported("receive without a send")
        whole = z3.Or(*[p[0] for p in parts])
        # the matching rank did send (progress is the subject of C19)
        c.assume_rank_progress(whole)

        def go(k):
            cond, v, _ = parts[k]
            if k == len(parts) - 1:
                return subst_value(v, [(r, s)])
            return V.ite_value(cond, lambda: subst_value(v, [(r, s)]), lambda: go(k + 1))
        return _thaw(go(0))


def _thaw(v):
    return v


def reduce_over(head, n, body):
    """head over 0<=k<n of body; body may return None (not part of the group)"""
    c = ctx()
    v = T.fresh("b")

    def run():
        with c.assuming(v >= 0, v < n):
            return body([v])
    leaves = c.cases(run, [v])
    keep = [(tuple(g), p) for g, p in leaves if p is not None]
    full = len(keep) == len(leaves)
    if head == "sum":
        out = D.Poly()
        if full and len({p.key() for _, p in keep}) == 1:
            keep = [((), keep[0][1])]
        keep = D.merge_split(keep)
        for g, p in keep:
            out = out + D._sum_normal([(v, n)], g, p)
        return out
    if not keep:
        raise Unsupported("empty reduction")
    if len({p.key() for _, p in keep}) == 1 and full:
        return D._minmax(head, [(v, n)], (), keep[0][1])
    if len({p.key() for _, p in keep}) == 1:
        return D._minmax(head, [(v, n)], (z3.simplify(z3.Or(*[z3.And(*g) if g else z3.BoolVal(True) for g, _ in keep])),), keep[0][1])
    return D.combine(head, [D._minmax(head, [(v, n)], g, p) for g, p in keep])
