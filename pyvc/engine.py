"""Path exploration, queries, facts, obligations."""
from __future__ import annotations
import time, itertools, traceback
import z3
from . import terms as T
from .terms import I, norm, lit, ipoly, subst, mentions, apps_of, keep


class PathEnd(BaseException):
    """the path is infeasible or was cut on purpose"""


class StageStop(BaseException):
    """path waits for the contributions of the other ranks"""


class Unsupported(BaseException):
    pass


CTX = None
TIER = "quick"


def ctx() -> "Ctx":
    if CTX is None:
        raise Unsupported("no active context")
    return CTX


# ------------------------------------------------------------------ statistics
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.unknown = 0
        self.cache_hits = 0
        self.by_backend = {}


STATS = Stats()
_qcache = {}


class Scope:
    __slots__ = ("pairs",)

    def __init__(self, pairs):
        self.pairs = [(a, I(b)) for a, b in pairs]


class Local:
    """a local exploration (cases)"""
    __slots__ = ("bound", "script", "pos", "conds", "bconds", "todo")

    def __init__(self, bound):
        self.bound = bound
        self.todo = [()]

    def start(self, script):
        self.script = list(script)
        self.pos = 0
        self.conds = []
        self.bconds = []


class Assume:
    __slots__ = ("cond", "bcond")

    def __init__(self, cond, bcond):
        self.cond = cond
        self.bcond = bcond


class Obligation:
    __slots__ = ("name", "status", "info", "path", "backend", "time", "soft")

    def __init__(self, name, status, info=None, path=None, backend=None, t=0.0):
        self.name, self.status, self.info, self.path, self.backend, self.time = name, status, info, path, backend, t
        self.soft = False

    def __repr__(self):
        return f"<{self.name}: {self.status}>"


class Stage:
    """contributions of the paths of all ranks to the synchronisation points"""

    def __init__(self):
        self.defs = {}
        self.pending = {}
        self.sends = None       # list of send events over all paths (second pass)
        self.sends_pending = []
        self.need_sends = False
        self.saw_recv = False
        self.incomplete = False


_fk = {}


def _fnkey(f):
    """identifies a schema function by its code and the terms it closes over"""
    h = _fk.get(id(f))
    if h is None:
        h = _fk[id(f)] = (f, hash(_fnkey1(f, 0)))
    return h[1]


def _fnkey1(f, d):
    if isinstance(f, z3.AstRef):
        return ("z", keep(f).get_id())
    if isinstance(f, (int, str, float, bool)) or f is None:
        return f
    if hasattr(f, "__code__") and d < 5:
        vals = [c.cell_contents for c in f.__closure__ or ()] + list(f.__defaults__ or ())
        return (f.__code__, tuple(_fnkey1(v, d + 1) for v in vals))
    if isinstance(f, (tuple, list)):
        return tuple(_fnkey1(v, d + 1) for v in f)
    k = getattr(f, "fn", None)
    if k is not None and d < 5:
        return _fnkey1(k, d + 1)
    return id(type(f))


class Ctx:
    FEAS_TIMEOUT = 3000
    PROVE_TIMEOUT = 15000

    def __init__(self, script=(), stage=None, feas_cache=None, unit=None):
        self.unit = unit
        self.script = list(script)
        self.pos = 0
        self.decisions = []
        self.alternatives = []
        self.pc = []
        self.facts = []
        self.app_schemas = {}     # decl name -> [fn(*args)->list]
        self.pair_schemas = {}    # decl name -> [fn(args1, args2)->list]
        self.shallow = set()      # facts only used at the ranks a query mentions itself
        self.rank_facts = []      # fn(k)->z3 Bool, for every 0<=k<P
        self.rank_terms_decls = set()   # decl names whose first argument is a rank
        self.frames = []
        self.stage = stage or Stage()
        self.feas_cache = feas_cache if feas_cache is not None else {}
        self.events = []          # collective / p2p trace of this path
        self.event_pc = []        # number of path conditions at each event
        self.nsync = 0
        self.obls = []
        self.r = z3.Int("r")
        self.P = z3.Int("P")
        self.facts += [self.P >= 1, self.r >= 0, self.r < self.P]
        self.bases = []           # prefix functions
        self.notes = []
        self.tainted = []         # reasons why refutations are not definite
        self._icache = {}         # instances of schemas
        self.loop_stack = []
        self.soft = False         # inside the invariant of a loop: what fails there is undecided, not refuted
        self.probe = False        # trial run of a loop body: nothing is recorded, undetermined branches are taken
        self.raise_paths = []
        self.mem = {}
        self.progress = []        # (number of collectives before, id of a fact assumed there)
        self.stage_facts = []     # (number of the collective, schema over the ranks assumed there)
        self.app_schemas["qdiv"] = [T.qdiv_axioms]
        self.app_schemas["rmod"] = [T.qdiv_axioms]

    # ---------------------------------------------------------------- frames
    def to_base(self, cond):
        """express cond (current vocabulary) in the base vocabulary"""
        for f in reversed(self.frames):
            if isinstance(f, Scope):
                cond = z3.substitute(cond, *f.pairs)
        return cond

    class _Push:
        def __init__(self, c, f):
            self.c, self.f = c, f

        def __enter__(self):
            self.c.frames.append(self.f)
            return self.f

        def __exit__(self, *a):
            f = self.c.frames.pop()
            assert f is self.f
            return False

    def scope(self, pairs):
        return Ctx._Push(self, Scope(pairs))

    def assuming(self, *conds):
        c = z3.And(*conds) if len(conds) != 1 else conds[0]
        return Ctx._Push(self, Assume(c, self.to_base(c)))

    def local_conds(self):
        out = []
        for f in self.frames:
            if isinstance(f, Assume):
                out.append(f.bcond)
            elif isinstance(f, Local):
                out += f.bconds
        return out

    # ---------------------------------------------------------------- forks
    def fork(self, cond) -> bool:
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        # try the base first: implied?
        c = cond
        for i in range(len(self.frames) - 1, -1, -1):
            f = self.frames[i]
            if isinstance(f, Scope):
                c = z3.substitute(c, *f.pairs)
            elif isinstance(f, Local):
                if any(mentions(c, b) for b in f.bound):
                    return self._fork_local(f, i, c)
        return self._fork_base(z3.simplify(c))

    def _down(self, i, c):
        for f in reversed(self.frames[:i]):
            if isinstance(f, Scope):
                c = z3.substitute(c, *f.pairs)
        return c

    def _fork_local(self, f, i, c):
        bc = self._down(i, c)
        if f.pos < len(f.script):
            v = f.script[f.pos]
            f.pos += 1
        else:
            base = self.local_conds()
            ft = self.sat(base + [bc]) != "unsat"
            ff = self.sat(base + [z3.Not(bc)]) != "unsat" if ft else True
            if ft and ff:
                f.todo.append(tuple(f.script) + (False,))
                v = True
            else:
                v = ft
            f.script.append(v)
            f.pos += 1
        f.conds.append(c if v else z3.Not(c))
        f.bconds.append(bc if v else z3.Not(bc))
        return v

    def _fork_base(self, c):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.probe:
            lc = self.local_conds()
            v = self.sat(lc + [c]) != "unsat"
            self.pc.append(c if v else z3.Not(c))
            return v
        if self.pos < len(self.script):
            d = self.script[self.pos]
            self.pos += 1
        else:
            key = tuple(self.decisions)
            hit = self.feas_cache.get((key, c.get_id()))
            if hit is None:
                lc = self.local_conds()
                ft = self.sat(lc + [c]) != "unsat"
                ff = self.sat(lc + [z3.Not(c)]) != "unsat" if ft or not lc else True
                if not ft and not ff:
                    raise PathEnd()
                hit = (ft, ff)
                if not lc:
                    keep(c)
                    self.feas_cache[(key, c.get_id())] = hit
            ft, ff = hit
            if ft and ff:
                self.alternatives.append(tuple(self.decisions) + (0,))
                d = 1
            else:
                d = 3 if ft else 2      # forced by what is already known
            self.script.append(d)
            self.pos += 1
        self.decisions.append(d)
        v = bool(d & 1)
        if not d & 2:
            self.pc.append(c if v else z3.Not(c))
        return v

    TRIAL = ("pc", "facts", "rank_facts", "events", "event_pc", "obls", "notes", "tainted", "progress", "stage_facts", "raise_paths")

    def trial_begin(self):
        self.probe = True
        return ({a: list(getattr(self, a)) for a in self.TRIAL}, {k: list(v) for k, v in self.app_schemas.items()},
                {k: list(v) for k, v in self.pair_schemas.items()}, self.nsync)

    def trial_end(self, saved):
        self.probe = False
        for a, v in saved[0].items():
            getattr(self, a)[:] = v
        for d, old in ((self.app_schemas, saved[1]), (self.pair_schemas, saved[2])):
            for k in list(d):
                if k in old:
                    d[k][:] = old[k]
                elif not k.startswith(("S_", "own_")):      # definitions of prefix sums stay
                    del d[k]
        if self.nsync != saved[3]:
            raise Unsupported("communication in a loop of symbolic length")

    def cases(self, thunk, bound):
        """all feasible outcomes of thunk() that differ by conditions on the bound constants:
        list of (conds, value)"""
        f = Local(list(bound))
        out = []
        self.frames.append(f)
        try:
            n = 0
            while f.todo:
                n += 1
                if n > 400:
                    raise Unsupported("too many cases")
                f.start(f.todo.pop())
                depth = len(self.frames)
                v = thunk()
                assert len(self.frames) == depth
                out.append((list(f.conds), v))
        finally:
            while self.frames and self.frames[-1] is not f:
                self.frames.pop()
            self.frames.pop()
        return out

    def assume(self, cond):
        """path assumption (base vocabulary)"""
        if isinstance(cond, bool):
            if not cond:
                raise PathEnd()
            return
        self.pc.append(cond)

    def fact(self, *conds):
        for c in conds:
            if isinstance(c, bool):
                assert c
                continue
            self.facts.append(c)

    # ---------------------------------------------------------------- queries
    def _instances(self, formulas):
        seen = {}
        rank_seen = {}
        out = []
        work = list(formulas)
        bydecl = {}
        rterms = {}
        for t in (self.r, self.P - 1, z3.IntVal(0)):
            rterms[I(norm(t)).get_id()] = I(norm(t))
        emitted = set()

        def emit(l):
            res = []
            for x in l:
                if isinstance(x, bool):
                    continue
                x = T.canon(x)
                if z3.is_true(x):
                    continue
                k = x.get_id()
                if k not in emitted:
                    emitted.add(keep(x).get_id())
                    out.append(x)
                    res.append(x)
            return res

        done_rank = set()
        for rnd in range(4):
            newapps = []
            for f in work:
                for k, a in apps_of(f).items():
                    if k not in seen:
                        seen[k] = a
                        newapps.append(a)
            work = []
            for a in newapps:
                dn = a.decl().name()
                args = a.children()
                aid = tuple(x.get_id() for x in args)
                for fn in self.app_schemas.get(dn, ()):
                    key = (fn, aid)
                    l = self._icache.get(key)
                    if l is None:
                        for x in args:
                            keep(x)
                        l = self._icache[key] = fn(*args)
                    work += emit(l)
                if dn in self.pair_schemas:
                    prev = bydecl.setdefault(dn, [])
                    for fn in self.pair_schemas[dn]:
                        for b, bid in prev:
                            key = (fn, aid, bid)
                            l = self._icache.get(key)
                            if l is None:
                                for x in list(args) + list(b):
                                    keep(x)
                                l = self._icache[key] = fn(args, b)
                            work += emit(l)
                    prev.append((args, aid))
                if dn in self.rank_terms_decls:
                    t = I(norm(args[0]))
                    rterms.setdefault(t.get_id(), keep(t))
            if self.rank_facts:
                for k, t in list(rterms.items()):
                    if k in done_rank:
                        continue
                    done_rank.add(k)
                    for fn in self.rank_facts:
                        if rnd and fn in self.shallow:
                            continue
                        key = (fn, k)
                        l = self._icache.get(key)
                        if l is None:
                            keep(t)
                            l = self._icache[key] = [z3.Implies(z3.And(0 <= t, t < self.P), fn(t))]
                        work += emit(l)
            if not work:
                break
        return out

    def sat(self, conds, timeout=None, want_model=False):
        """satisfiability of facts + pc + conds (base vocabulary)"""
        timeout = timeout or self.FEAS_TIMEOUT
        fs = [f for f in self.facts + self.pc + list(conds) if not z3.is_true(f)]
        key = (frozenset(f.get_id() for f in fs), tuple(_fnkey(f) for f in self.rank_facts), len(self.pair_schemas), want_model)
        hit = _qcache.get(key)
        if hit is not None:
            STATS.cache_hits += 1
            return hit[0] if not want_model else hit
        for f in fs:
            keep(f)
        t0 = time.time()
        fs = [f for f in map(T.canon, fs) if not z3.is_true(f)]
        if any(z3.is_false(f) for f in fs):
            hit = _qcache[key] = ("unsat", None, True, "normal-form")
            return hit if want_model else hit[0]
        inst = self._instances(fs)
        allf = fs + inst
        cache, mons = {}, {}
        lin = [T.linearize(f, cache, mons) for f in allf]
        s = z3.SolverFor("QF_UFLIA") if not want_model else z3.Solver()
        s.set("timeout", timeout)
        s.add(*lin)
        # products of non-negative factors are non-negative, ordered products
        ml = list(mons.values())
        for (m, at) in ml:
            if len(at) == 2:
                a, b = at
                s.add(z3.Implies(z3.And(a >= 0, b >= 0), m >= 0), z3.Implies(z3.And(a >= 1, b >= 1), z3.And(m >= a, m >= b)),
                      z3.Implies(a == 0, m == 0), z3.Implies(b == 0, m == 0),
                      z3.Implies(a == 1, m == b), z3.Implies(b == 1, m == a))
            else:
                s.add(z3.Implies(z3.And(*[a >= 0 for a in at]), m >= 0))
                for a in at:
                    s.add(z3.Implies(a == 0, m == 0))
        for (m1, a1), (m2, a2) in itertools.combinations(ml, 2):
            # shared factor M >= 0:  M*x vs M*y
            if len(a1) == 2 and len(a2) == 2:
                for i in (0, 1):
                    for j in (0, 1):
                        if a1[i].eq(a2[j]):
                            M, x, y = a1[i], a1[1 - i], a2[1 - j]
                            s.add(z3.Implies(z3.And(M >= 0, x <= y), m1 <= m2), z3.Implies(z3.And(M >= 0, y <= x), m2 <= m1),
                                  z3.Implies(z3.And(M >= 0, x < y), m1 + M <= m2), z3.Implies(z3.And(M >= 0, y < x), m2 + M <= m1))
            elif len(a1) == len(a2) == 3:
                ids = [a.get_id() for a in a2]
                rest, com = [], []
                for a in a1:
                    if a.get_id() in ids:
                        ids.remove(a.get_id())
                        com.append(a)
                    else:
                        rest.append(a)
                if len(rest) == 1:
                    x, y = rest[0], next(a for a in a2 if a.get_id() == ids[0])
                    M = mons.get(tuple(sorted(a.get_id() for a in com)))
                    nn = z3.And(*[a >= 0 for a in com])
                    s.add(z3.Implies(z3.And(nn, x <= y), m1 <= m2), z3.Implies(z3.And(nn, y <= x), m2 <= m1))
                    if M is not None:
                        s.add(z3.Implies(z3.And(nn, x < y), m1 + M[0] <= m2), z3.Implies(z3.And(nn, y < x), m2 + M[0] <= m1))
        res = str(s.check())
        model = None
        definite = True
        backend = "z3-lia"
        if res == "sat" and mons:
            model = s.model() if want_model else None
            s2 = z3.Solver()
            s2.set("timeout", timeout)
            s2.add(*allf)
            r2 = str(s2.check())
            backend = "z3-nia"
            if r2 == "unsat":
                res = "unsat"
            elif r2 == "sat":
                model = s2.model() if want_model else None
            else:
                definite = False
        elif res == "sat" and want_model:
            model = s.model()
        if res == "sat" and want_model and definite:
            model, definite = self._confirm(fs, allf, model, timeout)
        elif res == "unknown":
            backend = "z3"
            STATS.unknown += 1
        dt = time.time() - t0
        STATS.queries += 1
        STATS.solver_time += dt
        STATS.by_backend[backend] = STATS.by_backend.get(backend, 0) + 1
        hit = (res, model, definite, backend)
        _qcache[key] = hit
        return hit if want_model else res

    def _confirm(self, fs, allf, model, timeout):
        """a model in which the prefix sums of the query are the sums they stand for (at most K summands each); without
        one the counter-model does not count as definite.  Queries without prefix sums keep their model."""
        from .values import prefix_expansion
        tried = False
        for K in (2, 4):
            ex = prefix_expansion(self, allf, K)
            if ex is None:
                return model, True
            tried = True
            inst = self._instances(fs + ex)
            s = z3.Solver()
            s.set("timeout", timeout)
            s.add(*allf, *ex, *inst)
            if str(s.check()) == "sat":
                return s.model(), True
        return model, not tried

    def valid(self, cond):
        """is cond (current vocabulary) implied on this path?"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        c = self.to_base(cond)
        return self.sat(self.local_conds() + [z3.Not(c)]) == "unsat"

    def feasible(self, cond=None):
        cs = self.local_conds()
        if cond is not None:
            cs = cs + [self.to_base(cond)]
        return self.sat(cs) != "unsat"

    # ---------------------------------------------------------------- obligations
    def oblige(self, name, cond, info=None):
        """cond: z3 Bool or bool in the current vocabulary"""
        if FOCUS or self.probe:
            return True
        t0 = time.time()
        if isinstance(cond, bool):
            if cond:
                self.obls.append(Obligation(name, "proved", None, tuple(self.decisions), "syntactic"))
                return True
            c = z3.BoolVal(False)
        else:
            c = z3.simplify(self.to_base(cond))
        if z3.is_true(c):
            self.obls.append(Obligation(name, "proved", None, tuple(self.decisions), "z3-simplify"))
            return True
        res, model, definite, be = self.sat(self.local_conds() + [z3.Not(c)], timeout=self.PROVE_TIMEOUT, want_model=True)
        st = {"unsat": "proved", "sat": "refuted", "unknown": "unknown"}[res]
        if st == "refuted" and (not definite):
            st = "unknown"
        inf = None
        if st != "proved":
            inf = {"goal": str(c)[:600], "pc": [str(x)[:300] for x in self.pc], "model": model_str(model), "note": info}
        self.obls.append(Obligation(name, st, inf, tuple(self.decisions), be, time.time() - t0))
        self.obls[-1].soft = self.soft
        return st == "proved"

    def record(self, name, status, info=None, backend="normal-form"):
        if self.probe or (FOCUS and not name.startswith(FOCUS)):
            return True
        self.obls.append(Obligation(name, status, info, tuple(self.decisions), backend))
        self.obls[-1].soft = self.soft
        return status == "proved"

    # ---------------------------------------------------------------- ranks
    def uniform_key(self):
        """identifies the branch decisions that all ranks share"""
        return tuple(p.get_id() for p in self.pc if not mentions(p, self.r))

    def event(self, comm, kind, detail):
        self.events.append((comm, kind, detail))
        self.event_pc.append(len(self.pc))

    def assume_rank_progress(self, cond):
        self.facts.append(cond)
        self.progress.append((self.nsync, keep(cond).get_id()))

    def rank_dependent(self):
        return any(mentions(p, self.r) for p in self.pc)


def model_str(m):
    if m is None:
        return None
    out = {}
    for d in m.decls():
        try:
            v = m[d]
            if d.arity() == 0:
                out[d.name()] = str(v)
            else:
                out[d.name()] = str(v)[:200].replace("\n", " ")
        except Exception:
            pass
    return out


# ------------------------------------------------------------------ exploration
FOCUS = None        # prefix of the only obligations wanted


class Result:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.paths = 0
        self.unsupported = []
        self.events = []
        self.notes = []
        self.wall = 0.0
        self.trace = None
        self.tainted = []
        self.reached = set()


def explore(name, fn, max_paths=400, max_restarts=80, budget_s=240):
    """run fn(ctx) on all paths"""
    global CTX
    res = Result(name)
    t0 = time.time()
    stage = Stage()
    feas = {}
    restarts = 0
    from . import comm
    chk = comm.Checker()
    while True:
        recs = []
        work = [()]
        obls, events, paths, unsup, notes, tainted, reached = [], [], 0, [], [], [], set()
        stage.pending = {}
        stage.sends_pending = []
        res.trace = None
        while work:
            sc = work.pop()
            c = Ctx(sc, stage, feas)
            saved = CTX
            CTX = c
            ended = "end"
            try:
                fn(c)
            except PathEnd:
                ended = "cut"
            except StageStop:
                ended = "stage"
            except Unsupported as e:
                unsup.append(str(e) or repr(e))
                if len(unsup) == 1:
                    res.trace = traceback.format_exc()
                ended = "unsupported"
            except RecursionError as e:
                unsup.append("recursion limit")
                ended = "unsupported"
            except Exception as e:          # an error of the machinery: undecided, never a verdict
                unsup.append(f"{type(e).__name__}: {e}")
                if len(unsup) == 1:
                    res.trace = traceback.format_exc()
                ended = "unsupported"
            finally:
                CTX = saved
            paths += 1
            work += c.alternatives
            obls += c.obls
            notes += c.notes
            tainted += c.tainted
            reached |= c.mem.get("reached", set())
            recs.append(comm.Rec(c, ended))
            if paths > max_paths:
                unsup.append("too many paths")
                break
            if time.time() - t0 > budget_s:
                unsup.append("time budget exhausted")
                break
        first = stage.sends is None and (stage.need_sends or stage.saw_recv or stage.sends_pending)
        if FOCUS and not first:
            last = not stage.pending
            saved = CTX
            try:
                chk.run(recs, last)
            except Unsupported as e:
                unsup.append(str(e))
            finally:
                CTX = saved
        if (stage.need_sends or stage.saw_recv and unsup) and stage.sends is None and restarts < max_restarts and time.time() - t0 < budget_s:
            # first pass: messages are only collected; what follows a receive is not meaningful
            stage.incomplete = bool(unsup)
            stage.sends = stage.sends_pending
            restarts += 1
            continue
        if stage.pending and not unsup:
            i = min(stage.pending)
            stage.defs[i] = stage.pending[i]
            restarts += 1
            if restarts > max_restarts:
                unsup.append("too many synchronisation restarts")
            else:
                continue
        if (stage.sends_pending or stage.saw_recv) and stage.sends is None and not unsup:
            stage.sends = stage.sends_pending
            restarts += 1
            continue
        break
    obls = obls + list(chk.out.values())
    if any(o.soft and o.status != "proved" for o in obls):
        # an invariant is part of the proof: a loop of another form can miss it and still be right, and
        # everything else in this unit was shown under the assumption that it holds
        for o in obls:
            if o.status == "refuted":
                o.status = "unknown"
    res.obls, res.events, res.paths = obls, events, paths
    res.unsupported = unsup
    res.notes = notes
    res.tainted = tainted
    res.reached = reached
    res.wall = time.time() - t0
    return res
