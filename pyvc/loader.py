"""Load the sources of pylops_mpi for symbolic execution.

The text of every module is read from the repository on each run and executed as it stands, except
for these mechanical rewrites (all of them listed in DESIGN.md):
  * list displays and comprehensions and 'for' go through helpers, so that iterations over
    sequences of symbolic length can be carried out once, for a generic element;
  * 'while' gets a hook where a loop invariant can be installed;
  * the text of error messages (arguments of raise statements) is dropped;
  * docstrings are dropped.
Imports of third-party packages are redirected to the symbolic models."""
from __future__ import annotations
import ast, builtins, math, os, sys, types, enum
import numpy as _np
import z3
from . import terms as T, values as V, sarr, smpi, data as D, engine
from .terms import I, norm, lit, is_int
from .engine import ctx, Unsupported
from .values import SInt, SBool, SNum, SymList, SymRange, TList, mk, mkb, B, imin, imax
from .sarr import SymArr, IntArr, SymSet, NP, as_seq

REPO = os.environ.get("VERIF_REPO", "/repo")


# ------------------------------------------------------------------ rewriting
class Rewrite(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fn = []
        self.n = 0
        self.hooks = []

    def visit_FunctionDef(self, node):
        self.fn.append(node)
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            node.body = body[1:] or [ast.Pass()]
        self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_Raise(self, node):
        self.generic_visit(node)
        e = node.exc
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id[:1].isupper():
            e.args = [ast.Constant("message")] if e.args else []
        return node

    def visit_JoinedStr(self, node):
        # the text is dropped; calls inside it are made (they may communicate)
        self.generic_visit(node)
        vals = [v.value for v in node.values if isinstance(v, ast.FormattedValue) and any(isinstance(x, ast.Call) for x in ast.walk(v.value))]
        lam = [ast.Lambda(ast.arguments([], [], None, [], [], None, []), v) for v in vals]
        return ast.Call(ast.Name("__fstr__", ast.Load()), lam, [])

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.Constant(node.left.value)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.Call(ast.Name("__list__", ast.Load()), [node], [])
        return node

    def _comp(self, node, kind):
        if len(node.generators) != 1 or node.generators[0].is_async:
            self.generic_visit(node)
            return node
        g = node.generators[0]
        self.generic_visit(node)
        g = node.generators[0]
        names = [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)]
        if isinstance(g.target, ast.Name):
            params, star = [g.target.id], False
        elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
            params, star = [e.id for e in g.target.elts], True
        else:
            return node

        def lam(body):
            return ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(p) for p in params], kwonlyargs=[], kw_defaults=[], defaults=[]), body)
        cond = ast.Constant(None)
        if g.ifs:
            cond = lam(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs))
        return ast.Call(ast.Name("__comp__", ast.Load()),
                        [lam(node.elt), g.iter, ast.Constant(star), cond, ast.Constant(kind)], [])

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_SetComp(self, node):
        return self._comp(node, "set")

    def visit_For(self, node):
        carried = self._carried(node)
        self.generic_visit(node)
        qn = ".".join(f.name for f in self.fn)
        self.n += 1
        node.iter = ast.Call(ast.Name("__loop__", ast.Load()),
                             [node.iter, ast.Constant(tuple(carried)), ast.Constant(f"{self.mod}:{qn}"),
                              ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                         ast.Call(ast.Name("locals", ast.Load()), [], []))], [])
        # the iterable sees the locals of the function through an explicit argument
        node.iter.args[3] = ast.Call(ast.Name("locals", ast.Load()), [], [])
        return self._rebindable(node, qn, carried)

    def _rebindable(self, node, qn, names):
        """a loop hook may give the variables carried by the loop new values (at the start of an iteration and behind the loop)"""
        def stmts():
            out = []
            for v in sorted(names):
                if v.isidentifier():
                    call = lambda f: ast.Call(ast.Name(f, ast.Load()), [ast.Constant(f"{self.mod}:{qn}"), ast.Constant(v)], [])
                    out.append(ast.If(call("__rebinds__"), [ast.Assign([ast.Name(v, ast.Store())], call("__rebound__"))], []))
            return out
        node.body = stmts() + node.body
        return [node] + stmts()

    def visit_While(self, node):
        self.generic_visit(node)
        qn = ".".join(f.name for f in self.fn)
        # while c: body   ->   for __w in __while__(lambda: c, where, locals()): body ; locals re-read through the lambda
        self.hooks.append(qn)
        names = {x.id for n in node.body for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        test = node.test
        lam = ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), test)
        if node.orelse:
            return node
        loop = ast.For(target=ast.Name("__w", ast.Store()),
                       iter=ast.Call(ast.Name("__while__", ast.Load()), [lam, ast.Constant(f"{self.mod}:{qn}"),
                                     ast.Call(ast.Name("locals", ast.Load()), [], [])], []),
                       body=node.body, orelse=[])
        return self._rebindable(loop, qn, names)

    def _carried(self, node):
        """names that carry a value from one iteration to the next or out of the loop"""
        fn = self.fn[-1] if self.fn else None
        if fn is None:
            return ["<module>"]
        # variables of a comprehension are its own
        for cmpr in ast.walk(fn):
            if isinstance(cmpr, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                tg = {x.id for g in cmpr.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                first = {id(x) for x in ast.walk(cmpr.generators[0].iter)}
                for x in ast.walk(cmpr):
                    if isinstance(x, ast.Name) and x.id in tg and id(x) not in first:
                        x.own_of_comprehension = True
        local = lambda x: getattr(x, "own_of_comprehension", False)
        stored = set()
        for n in node.body:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not local(x):
                    stored.add(x.id)
                if isinstance(x, (ast.Break, ast.Return)):
                    stored.add("<exit>")
        tgt = {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)}
        out = set()
        if "<exit>" in stored:
            out.add("<exit>")
        inside = set()
        for n in node.body:
            for x in ast.walk(n):
                inside.add(id(x))
        for x in ast.walk(node.target):
            inside.add(id(x))
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and not local(x) and isinstance(x.ctx, ast.Load) and x.id in (stored | tgt) and id(x) not in inside:
                # a later textual store before the load would be fine; be conservative except for loads before the loop
                if x.lineno >= node.lineno and not self._reset_before(fn, node, x):
                    out.add(x.id)
        seen = set()
        for n in node.body:
            for x in self._order(n):
                if isinstance(x, ast.Name) and not local(x):
                    if isinstance(x.ctx, ast.Load) and x.id in stored and x.id not in seen and x.id not in tgt:
                        out.add(x.id)
                    if isinstance(x.ctx, ast.Store):
                        seen.add(x.id)
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id not in seen:
                    out.add(x.target.id)
        return sorted(out)

    def _reset_before(self, fn, node, load):
        """is the name stored between the loop and the load, at the level of the loop?"""
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == load.id and \
                    (node.end_lineno or node.lineno) < x.lineno < load.lineno:
                return True
            if isinstance(x, (ast.For,)) and x is not node and (node.end_lineno or 0) < x.lineno <= load.lineno:
                if any(isinstance(y, ast.Name) and y.id == load.id for y in ast.walk(x.target)):
                    return True
        return False

    def _order(self, n):
        """nodes in evaluation order (value before target)"""
        if isinstance(n, ast.Assign):
            yield from self._order(n.value)
            for t in n.targets:
                yield from self._order(t)
            return
        if isinstance(n, ast.AugAssign):
            yield n
            yield from self._order(n.value)
            yield from self._order(n.target)
            return
        yield n
        for c in ast.iter_child_nodes(n):
            yield from self._order(c)


# ------------------------------------------------------------------ helpers used by the rewritten text
class LoopFrame:
    def __init__(self, k, n):
        self.k, self.n = k, n
        self.own = []
        self.appends = []
        self.arrays = []
        self.ints = []

    def is_own(self, o):
        return any(o is x for x in self.own)

    def list_append(self, tl, x):
        if any(tl is l for l, _ in self.appends):
            raise Unsupported("two appends to a list in a loop of symbolic length")
        if any(f.is_own(tl) for f in ctx().loop_stack[:-1]):
            pass
        self.appends.append((tl, x))

    def array_write(self, buf, old, maps, shape):
        if self.is_own(buf):
            return
        for e in self.arrays:
            if e[0] is buf:
                e[2].append((maps, shape))
                return
        self.arrays.append((buf, old, [(maps, shape)]))

    def int_write(self, arr, old, t, v):
        if self.is_own(arr):
            return
        if any(a is arr for a, _, _, _ in self.ints):
            raise Unsupported("two writes to an integer array in a loop of symbolic length")
        self.ints.append((arr, old, t, v))

    def finish(self):
        k, n = self.k, self.n
        for tl, x in self.appends:
            x = smpi.freeze(x)
            s = SymList(n, lambda t, x=x: sarr.subst_value(x, [(k, t)]))
            if tl.sym is not None:
                tl.sym = tl.sym + s
            elif list.__len__(tl):
                tl.sym = V.conc_list(list(list.__iter__(tl))) + s
            else:
                tl.sym = s
        for arr, old, t, v in self.ints:
            d = norm(t - k)
            if not is_int(d):
                raise Unsupported("integer array written at a computed position in a loop")

            def f(q, old=old, d=d, v=v):
                kk = I(norm(I(q) - d))
                return V.ite_value(z3.And(0 <= kk, kk < n), lambda: sarr.subst_value(v, [(k, kk)]), lambda: old(q))
            arr._fn = f
        for buf, old, writes in self.arrays:
            dim = None
            for maps, shape in writes:
                ds = {}
                for j, m in enumerate(maps):
                    if m[0] == "f":
                        d = norm(I(m[1]) - k)
                        if not T.mentions(I(d), k):
                            ds[j] = d
                if not ds:
                    raise Unsupported("array written as a whole in a loop of symbolic length")
                j, d = next(iter(ds.items()))
                if dim is not None and dim != (j, d):
                    raise Unsupported("array written at several positions in a loop of symbolic length")
                dim = (j, d)
            j, d = dim
            new = buf.content
            nd = len(buf.shape)
            xs = [T.fresh("x") for _ in range(nd)]

            def content(idx, new=new, old=old, j=j, d=d, xs=xs):
                c = ctx()
                kk = I(norm(I(idx[j]) - I(d)))
                inr = c.fork(z3.And(0 <= kk, kk < n))
                if not inr:
                    return old(idx)
                pr = [(k, kk)] + list(zip(xs, [I(t) for t in idx]))
                with c.scope(pr):
                    p = new(tuple(xs))
                return p.subst(pr)
            buf.content = content
            buf.flat = None


def softly(c, hook):
    """run the invariant of a loop (a generator that stops at each iteration)"""
    while True:
        c.soft = True
        try:
            v = next(hook)
        except StopIteration:
            return
        finally:
            c.soft = False
        yield v


def loop(it, carried=(), where="", loc=None):
    c = engine.CTX
    it = as_seq(it)
    n = None
    if isinstance(it, (SymList, SymRange)):
        n = norm(it.length)
        at = it.at
    elif isinstance(it, IntArr):
        n = norm(it.length)
        at = it.fn
    elif isinstance(it, SymArr):
        n = norm(it.tshape[0])
        at = lambda k: it[mk(k)]
    if n is None or is_int(n):
        if n is not None:
            for k in range(n):
                yield at(z3.IntVal(k))
            return
        yield from it
        return
    hook = c.mem.get("loop_hooks", {}).get(where)
    if hook is not None:
        c.mem["carried"] = tuple(carried)
        yield from softly(c, hook(it, n, at, loc))
        return
    if carried and (loc is None or any(not v.isidentifier() or v not in loc for v in carried)):
        raise Unsupported(f"loop of symbolic length carries {', '.join(carried)} at {where}")
    n = I(n)
    if not c.fork(n > 0):
        return
    k = T.fresh("k")
    if carried:
        yield from carrying_loop(carried, where, loc, n, at, k)
        return
    c.fact(k >= 0, k < n)
    fr = LoopFrame(k, n)
    npc = len(c.pc)
    c.loop_stack.append(fr)
    c.mem.setdefault("locate", []).append(k)
    try:
        yield at(k)
    finally:
        if c.loop_stack and c.loop_stack[-1] is fr:
            c.loop_stack.pop()
    if any(T.mentions(p, k) for p in c.pc[npc:]):
        raise Unsupported(f"branch on the loop variable in a loop of symbolic length at {where}: {[p for p in c.pc[npc:] if T.mentions(p, k)][0]}"[:600])
    fr.finish()


class Carried:
    """a variable v with v_{k+1} = v_k + g(k): v_k = v_0 + sum of g.  The increment is read off a trial run of the body
    (integers) and confirmed by the generic iteration, which runs with v_k; numbers and arrays are opaque in it."""

    def __init__(self, name, v0):
        self.name, self.v0 = name, v0
        self.g = None
        if isinstance(v0, (bool, SBool)) or not isinstance(v0, (int, SInt, float, complex, SNum, SymArr)):
            raise Unsupported(f"loop of symbolic length carries {name}")
        self.kind = "int" if isinstance(v0, (int, SInt)) else "array" if isinstance(v0, SymArr) else "num"
        if self.kind == "array":
            self.shape, self.dt = v0.tshape, v0.dtype
        elif self.kind == "num":
            self.dt = sarr.DT(SNum.of(v0).dt)

    def trial_value(self):
        if self.kind == "int":
            self.t = T.fresh("carry")
            return mk(self.t)
        return self.opaque()

    def opaque(self):
        self.head = str(T.fresh("carried"))
        real = not sarr.is_complex(self.dt)
        if self.kind == "num":
            self.val = SNum(D.leaf(self.head, (), real), self.dt.name)
        else:
            self.val = sarr.new_array(self.shape, lambda idx: D.leaf(self.head, tuple(I(t) for t in idx), real), self.dt)
        return self.val

    def trial_result(self, v, k):
        """after the trial iteration"""
        if self.kind == "int":
            if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                self.g = I(norm(I(v) - self.t))
                if T.mentions(self.g, self.t):
                    raise Unsupported(f"loop of symbolic length carries {self.name}")
                return
            if isinstance(v, SymArr):
                self.kind, self.shape, self.dt = "array", v.tshape, v.dtype
            elif isinstance(v, SNum):
                self.kind, self.dt = "num", sarr.DT(v.dt)
            else:
                raise Unsupported(f"loop of symbolic length carries {self.name}")
            if any(T.mentions(x, k) for x in getattr(self, "shape", ())):
                raise Unsupported(f"loop of symbolic length carries {self.name}")

    def at(self, k, n):
        if self.kind != "int":
            return self.opaque()
        g = self.g
        return self.v0 + V.prefix_at(lambda t: z3.substitute(g, (self.k, I(t))), n, k)

    def final(self, v, k, n):
        """value behind the loop, from the value after the generic iteration"""
        c = ctx()
        if self.kind == "int":
            if not isinstance(v, (int, SInt)) or not c.valid(I(v) == I(self.at(k, n)) + self.g):
                raise Unsupported(f"loop of symbolic length carries {self.name}")
            return self.at(n, n)
        if self.kind == "num":
            if not isinstance(v, SNum) or sarr.DT(v.dt) != self.dt:
                raise Unsupported(f"loop of symbolic length carries {self.name}")
            d = self.increment(v.p - self.val.p)
            return SNum(SNum.of(self.v0).p + D.bind("sum", [n], lambda vs: d.subst([(k, vs[0])])), self.dt.name)
        if not isinstance(v, SymArr) or v.dtype != self.dt or len(v.tshape) != len(self.shape) or \
                not all(x.eq(y) or c.valid(x == y) for x, y in zip(v.tshape, self.shape)):
            raise Unsupported(f"loop of symbolic length carries {self.name}")
        xs = [T.fresh("x") for _ in self.shape]
        f, a = v.fn(), self.val_fn
        f0 = self.f0 if isinstance(self.v0, SymArr) else lambda idx, p=SNum.of(self.v0).p: p

        def term(kk, idx):
            pr = [(k, kk)] + list(zip(xs, [I(t) for t in idx]))
            with ctx().scope(pr):
                p = f(tuple(xs)) - a(tuple(xs))
            return self.increment(p).subst(pr)
        r = sarr.new_array(self.shape, lambda idx: f0(idx) + D.bind("sum", [n], lambda vs: term(vs[0], idx)), self.dt)
        if v is self.val or v.buf is self.val.buf:      # changed in place
            if not isinstance(self.v0, SymArr):
                raise Unsupported(f"loop of symbolic length carries {self.name}")
            self.inplace = True
            self.unguard()
            self.v0._assign(r)
            return self.v0
        self.unguard()
        return r

    inplace = False

    def guard(self):
        """the array behind the variable must not be read under another name if it is changed in place"""
        if not isinstance(self.v0, SymArr):
            return
        buf = self.v0.buf
        self.f0, self.old = self.v0.fn(), (buf.content, buf.flat)

        def wrap(f):
            def g(idx):
                if self.inplace:
                    raise Unsupported("array changed in place in a loop and read under another name")
                return f(idx)
            return g
        if buf.content is not None:
            buf.content = wrap(buf.content)
        if buf.flat is not None:
            buf.flat = (buf.flat[0], wrap(buf.flat[1]))

    def unguard(self):
        if isinstance(self.v0, SymArr):
            self.v0.buf.content, self.v0.buf.flat = self.old

    def increment(self, p):
        if _has_head(p, self.head, set()):
            raise Unsupported(f"loop of symbolic length carries {self.name}")
        return p


def _has_head(p, head, seen):
    for m in p.m:
        for aid in m:
            a = D._byid[aid]
            if a.id in seen:
                continue
            seen.add(a.id)
            if a.head == head or any(_has_head(q, head, seen) for q in a.polys) or (a.body is not None and _has_head(a.body, head, seen)):
                return True
    return False


def carrying_loop(carried, where, loc, n, at, k):
    c = engine.CTX
    vs = [Carried(v, loc[v]) for v in carried]
    if c.loop_stack or c.probe:
        raise Unsupported(f"nested loops of symbolic length carry {', '.join(carried)} at {where}")
    for v in vs:
        v.k = k
    # trial run
    if any(v.kind == "int" for v in vs):
        saved = c.trial_begin()
        fr = LoopFrame(k, n)
        done = False
        try:
            c.fact(k >= 0, k < n)
            c.loop_stack.append(fr)
            rebind(where, **{v.name: v.trial_value() for v in vs})
            yield at(k)
            now = current_locals(where)
            for v in vs:
                v.trial_result(now[v.name], k)
            done = True
        finally:
            if c.loop_stack and c.loop_stack[-1] is fr:
                c.loop_stack.pop()
            for buf, old, _ in fr.arrays:
                buf.content, buf.flat = old, None
            for arr, old, _, _ in fr.ints:
                arr._fn = old
            c.trial_end(saved)
    c.fact(k >= 0, k < n)
    fr = LoopFrame(k, n)
    npc = len(c.pc)
    c.loop_stack.append(fr)
    c.mem.setdefault("locate", []).append(k)
    start = {v.name: v.at(k, n) for v in vs}
    for v in vs:
        if v.kind == "array":
            fr.own.append(v.val.buf)
            v.val_fn = v.val.fn()
            v.guard()
    rebind(where, **start)
    try:
        yield at(k)
        now = current_locals(where)
    finally:
        if c.loop_stack and c.loop_stack[-1] is fr:
            c.loop_stack.pop()
    if any(T.mentions(p, k) for p in c.pc[npc:]):
        raise Unsupported(f"branch on the loop variable in a loop of symbolic length at {where}: {[p for p in c.pc[npc:] if T.mentions(p, k)][0]}"[:600])
    fr.finish()
    rebind(where, **{v.name: v.final(now[v.name], k, n) for v in vs})


def rebind(where, **values):
    """called by a loop hook: new values of local variables of the function around the loop"""
    engine.CTX.mem.setdefault("rebind", {}).setdefault(where, {}).update(values)


def s_rebinds(where, name):
    c = engine.CTX
    return c is not None and name in c.mem.get("rebind", {}).get(where, ())


def s_rebound(where, name):
    return engine.CTX.mem["rebind"][where].pop(name)


def current_locals(where):
    """local variables of the function around the loop a hook belongs to"""
    name = where.split(":")[1].split(".")[-1]
    f = sys._getframe(1)
    while f.f_code.co_name != name:
        f = f.f_back
    return dict(f.f_locals)


def while_(cond, where, loc):
    c = engine.CTX
    hook = c.mem.get("loop_hooks", {}).get(where) if c else None
    if hook is not None:
        yield from softly(c, hook(cond, loc))
        return
    n = 0
    while cond():
        n += 1
        if n > 6:
            raise Unsupported(f"while loop without invariant at {where}")
        yield n


def comp(f, it, star, cond, kind):
    it = as_seq(it)
    g = (lambda e: f(*e)) if star else f
    if isinstance(it, IntArr):
        it = it.tolist_sym()
    if isinstance(it, SymRange):
        it = SymList(it.length, it.at)
    if isinstance(it, SymList):
        n = lit(it.length)
        if n is None:
            if cond is not None:
                raise Unsupported("filter over a sequence of symbolic length")
            src = it.fn
            s = SymList(it.length, lambda k: g(src(k)))
            if kind == "set":
                return SymSet(s)
            return s
        it = [it.fn(z3.IntVal(k)) for k in range(n)]
    if isinstance(it, SymArr):
        it = list(it)
    out = []
    for e in it:
        if cond is not None:
            if not (cond(*e) if star else cond(e)):
                continue
        out.append(g(e))
    if kind == "set":
        return s_set(out)
    return mklist(out)


def mklist(l):
    t = TList(l)
    c = engine.CTX
    if c is not None and c.loop_stack:
        c.loop_stack[-1].own.append(t)
    return t


# ------------------------------------------------------------------ builtins
def s_len(x):
    return V.py_len(x)


def s_min(*a, **k):
    return _mm(a, imin, min, k)


def s_max(*a, **k):
    return _mm(a, imax, max, k)


def _mm(a, f, g, kw):
    if kw:
        return g(*a, **kw)
    if len(a) == 1:
        x = as_seq(a[0])
        if isinstance(x, (SymList, IntArr)):
            n = lit(x.length)
            if n is None:
                raise Unsupported("min/max over a sequence of symbolic length")
            x = [x.fn(z3.IntVal(k)) for k in range(n)]
        a = list(x)
    if all(isinstance(x, (int, SInt)) for x in a):
        r = a[0]
        for x in a[1:]:
            r = f(r, x)
        return r
    if any(isinstance(x, (SNum, SInt)) for x in a):
        r = SNum.of(a[0])
        for x in a[1:]:
            x = SNum.of(x)
            r = x if bool((x < r) if g is min else (x > r)) else r
        return r
    return g(a)


def s_sum(x, start=0):
    x = as_seq(x)
    if isinstance(x, IntArr):
        return x.sum() + start
    if isinstance(x, SymList):
        v = x.fn(V.KAPPA)
        if isinstance(v, (int, SInt)):
            return V.seq_total(x, lambda t: I(x.fn(t))) + start
        raise Unsupported("sum over a symbolic sequence")
    r = start
    for v in x:
        r = r + v
    return r


def s_int(x=0, *a):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return mk(z3.If(x.c, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, SNum):
        if x.p.is_const():
            return int(x.p.const()[0])
        v = int_of_poly(x.p)
        if v is not None:
            return v
        q = ratio_of_poly(x.p)
        if q is not None:       # towards zero
            n, d = q
            return mk(I(norm(I(mk(n) // d)))) if ctx().fork(n >= 0) else -mk(I(norm(I(mk(I(norm(-n))) // d))))
        raise Unsupported("int() of a symbolic number")
    return int(x, *a)


def ratio_of_poly(p):
    """(integer term, positive literal) whose quotient is p, or None"""
    d = 1
    for co in p.m.values():
        d = d * co[0].denominator // math.gcd(d, co[0].denominator)
    n = int_of_poly(p * D.const(d))
    return None if n is None else (I(n), d)


def int_of_poly(p):
    t = z3.IntVal(0)
    for m, co in p.m.items():
        if co[1] != 0 or co[0].denominator != 1:
            return None
        x = z3.IntVal(int(co[0]))
        for a in m:
            A = D._byid[a]
            if A.kind == "fn" and A.head == "int":
                x = x * A.args[0]
            else:
                return None
        t = t + x
    return mk(t)


def s_float(x=0.0):
    if isinstance(x, SInt):
        return SNum(D.from_int(x.t), "float64")
    if isinstance(x, SNum):
        if sarr.is_complex(x.dt):
            raise_model(TypeError)
        return SNum(x.p, "float64")
    if isinstance(x, SymArr):
        return s_float(SNum.of(x))
    f = getattr(type(x), "__sfloat__", None)
    if f is not None:
        return f(x)
    return float(x)


def raise_model(et, msg="message"):
    e = et(msg)
    e._model = True
    raise e


def s_bool(x=False):
    return bool(x)


_real_isinstance = isinstance


def s_isinstance(x, cls):
    if _real_isinstance(x, cls if not _real_isinstance(cls, tuple) else tuple(k for k in cls if _real_isinstance(k, type))):
        return True
    cl = cls if _real_isinstance(cls, tuple) else (cls,)
    if _real_isinstance(x, (SInt,)):
        return any(k in (int,) for k in cl)
    if _real_isinstance(x, SNum):
        if x.dt.startswith("complex"):
            return any(k in (complex, _np.complex128, _np.complexfloating) for k in cl)
        return any(k in (float, _np.float64, _np.floating) for k in cl)
    if _real_isinstance(x, SymList):
        return any(k is list for k in cl)
    if _real_isinstance(x, IntArr):
        return any(k is SymArr for k in cl)
    return False


def s_type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, SInt):
        return int
    if isinstance(x, SNum):
        return getattr(_np, x.dt)
    if isinstance(x, (SBool,)):
        return bool
    if isinstance(x, TList):
        return list
    return type(x)


def rows_of(x):
    """the rows of an array of symbolic size as a sequence"""
    x = as_seq(x)
    if isinstance(x, SymArr) and x.ndim and lit(x.tshape[0]) is None:
        return SymList(x.tshape[0], lambda k: x[mk(I(k))])
    if isinstance(x, SymRange) and lit(x.length) is None:
        return SymList(x.length, x.at)
    return x


def s_enumerate(x, start=0):
    x = rows_of(x)
    if isinstance(x, (SymList, IntArr)) and lit(x.length) is None:
        f = x.fn
        return SymList(x.length, lambda k: (mk(I(norm(I(k) + start))), f(k)))
    return enumerate(x, start)


def s_zip(*xs):
    xs = [rows_of(x) for x in xs]
    sym = [isinstance(x, (SymList, IntArr)) and lit(x.length) is None for x in xs]
    if any(sym):
        ref = xs[sym.index(True)]
        out = []
        for x in xs:
            if isinstance(x, (list, tuple)):
                raise Unsupported("zip of sequences of different kinds")
            if not sarr.known_eq(x.length, ref.length):
                raise Unsupported("zip of sequences of different length")
            out.append(x)
        return SymList(ref.length, lambda k: tuple(x.fn(k) for x in out))
    return zip(*xs)


def s_list(x=()):
    x = as_seq(x)
    if isinstance(x, SymList):
        return x
    if isinstance(x, IntArr):
        if lit(x.length) is None:
            return x.tolist_sym()
        return mklist(list(x))
    if isinstance(x, SymRange):
        n = norm(x.length)
        if not is_int(n):
            return SymList(x.length, x.at)
    return mklist(list(x))


def s_tuple(x=()):
    x = as_seq(x)
    if isinstance(x, SymList) and lit(x.length) is None:
        return x
    return tuple(x)


def s_set(x=()):
    x = as_seq(x)
    if isinstance(x, SymList):
        return SymSet(x)
    if isinstance(x, IntArr):
        nested = getattr(x, "nested", None)
        if nested is not None:
            return NestedSet(nested)
        return SymSet(x.tolist_sym())
    x = list(x)
    out = []
    for v in x:
        if isinstance(v, SymArr):
            raise Unsupported("set of arrays")
        if not any(bool(V.values_equal(v, w)) if isinstance(v, SInt) or isinstance(w, SInt) else v == w for w in out):
            out.append(v)
    return ConcSet(out)


class ConcSet:
    def __init__(self, l):
        self.l = l

    def __sym_len__(self):
        return len(self.l)

    def __len__(self):
        return len(self.l)

    def __iter__(self):
        return iter(self.l)

    def __contains__(self, x):
        return any(bool(V.values_equal(x, w)) for w in self.l)


class NestedSet:
    """set of the numbers in a list (one entry per rank) of lists"""

    def __init__(self, sl):
        self.sl = sl

    def __sym_len__(self):
        c = ctx()
        sl = self.sl
        P, K = c.P, V.KAPPA
        J = T.fresh("j")
        c.record("note", "proved", None, "note") if False else None
        with c.assuming(K >= 0, K < sl.length):
            inner = sl.fn(K)
            ln = I(inner.length)
            with c.assuming(J >= 0, J < ln):
                val = I(inner.fn(J))
        if not T.mentions(val, J) and not T.mentions(val, K):
            with c.assuming(K >= 0, K < sl.length):
                if c.valid(ln >= 1) and c.valid(sl.length >= 1):
                    return 1
        same = z3.Bool(f"same!{val.sexpr().replace(str(J), 'J')}")
        common = z3.Int(f"common!{val.sexpr().replace(str(J), 'J')}")
        if c.fork(same):
            # every entry equals the common value
            for d in T.apps_of(val).values():
                args = d.children()
                if any(T.mentions(a, J) for a in args) or any(T.mentions(a, K) for a in args):
                    nm = d.decl().name()
                    if d.eq(val) and len(args) == 2 and args[0].eq(K) and args[1].eq(J):
                        def fact(a, b, sl=sl):
                            return [z3.Implies(z3.And(0 <= a, a < sl.length, 0 <= b, b < I(sl.fn(a).length)), d.decl()(a, b) == common)]
                        c.app_schemas.setdefault(nm, []).append(fact)
                        break
            else:
                raise Unsupported("set of a nested list")
            return 1
        k1, j1 = T.fresh("k"), T.fresh("j")
        c.fact(k1 >= 0, k1 < sl.length, j1 >= 0, j1 < I(sl.fn(k1).length))
        return 2


def _truth(v):
    if isinstance(v, (bool, SBool)):
        return B(v)
    if isinstance(v, (int, SInt)):
        return I(v) != 0
    raise Unsupported("truth of the elements of a symbolic sequence")


def s_any(x):
    x = as_seq(x)
    if isinstance(x, SymList):
        return V.vnot(V.forall_seq(x.length, lambda k: z3.Not(_truth(x.fn(k)))))
    return any(x)


def s_all(x):
    x = as_seq(x)
    if isinstance(x, SymList):
        return V.forall_seq(x.length, lambda k: _truth(x.fn(k)))
    return all(x)


def s_hasattr(o, n):
    return hasattr(o, n)


def s_print(*a, **k):
    return None


def fstr(*parts):
    for p in parts:
        try:
            p()
        except Unsupported:
            pass
    return "text"


def s_abs(x):
    return abs(x)


BUILTINS = dict(vars(builtins))
BUILTINS.update(len=s_len, range=V.py_range, min=s_min, max=s_max, sum=s_sum, int=int, float=float, isinstance=s_isinstance,
                enumerate=s_enumerate, zip=s_zip, list=list, tuple=tuple, set=set, any=s_any, all=s_all, print=s_print,
                __loop__=loop, __rebinds__=s_rebinds, __rebound__=s_rebound, __while__=while_, __comp__=comp, __list__=mklist, __fstr__=fstr)


class _TypeShim(type):
    """callable stand-in of a builtin type: calls go to the helper, isinstance and annotations to the type"""
    def __call__(cls, *a, **k):
        return cls._f(*a, **k)

    def __instancecheck__(cls, x):
        return s_isinstance(x, cls._t)

    def __eq__(cls, o):
        return o is cls or o is cls._t

    def __hash__(cls):
        return hash(cls._t)

    def __getitem__(cls, k):
        return cls._t


def shim(t, f):
    return _TypeShim(t.__name__, (), {"_t": t, "_f": staticmethod(f)})


def _unshim(c):
    return c._t if isinstance(c, _TypeShim) else c


_old_isinst = s_isinstance


def s_isinstance2(x, cls):
    if isinstance(cls, tuple):
        cls = tuple(_unshim(k) for k in cls)
    else:
        cls = _unshim(cls)
    return s_isinstance(x, cls)


BUILTINS.update(int=shim(int, s_int), float=shim(float, s_float), list=shim(list, s_list), tuple=shim(tuple, s_tuple), set=shim(set, s_set),
                isinstance=s_isinstance2)


class _TypeFn:
    def __call__(self, *a):
        return s_type(*a)


# ------------------------------------------------------------------ modules
class Stub(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"{self.__name__}.{k}")


def stub(name, **kw):
    m = Stub(name)
    m.__dict__.update(kw)
    m.__dict__["__path__"] = []
    return m


class WorldComm(smpi.SymComm):
    """COMM_WORLD: exists before any proof context"""

    def __init__(self):
        self.name = "WORLD"
        self.color = None
        self.parent = None

    @property
    def foreign(self):
        return bool(ctx().mem.get("foreign_world"))

    def Get_rank(self):
        c = ctx()
        return mk(c.mem["foreign_world"][0]) if self.foreign else mk(c.r)

    def Get_size(self):
        c = ctx()
        return mk(c.mem["foreign_world"][1]) if self.foreign else mk(c.P)


WORLD = WorldComm()


def _value_or_sized_to_tuple(v, repeat=1):
    v = as_seq(v)
    if isinstance(v, (tuple, list)):
        vs = list(v)
        if any(isinstance(x, float) for x in vs) or any(isinstance(x, SNum) for x in vs):
            return tuple(x if isinstance(x, (float, SNum)) else s_float(x) for x in vs)
        return tuple(vs)
    if isinstance(v, IntArr):
        return tuple(v)
    if isinstance(v, (int, float, SInt, SNum)):
        return (v,) * repeat
    raise Unsupported("_value_or_sized_to_tuple")


def _get_dtype(operators, dtypes=None):
    dtypes = [] if dtypes is None else list(dtypes)
    ops = as_seq(operators)
    if isinstance(ops, SymList):
        ops = [ops.fn(V.KAPPA)]
    for o in ops:
        if o is not None and hasattr(o, "dtype"):
            dtypes.append(o.dtype)
    return _np.result_type(*[_unshim(d) for d in dtypes])


def isintlike(x):
    if isinstance(x, (int, SInt)):
        return True
    if isinstance(x, float):
        if int(x) == x:
            raise_model(ValueError)
        return False
    if isinstance(x, SNum):
        raise Unsupported("isintlike of a symbolic number")
    return False


def normalize_axis_index(ax, n):
    if not is_int(ax):
        raise Unsupported("symbolic axis")
    if not -n <= ax < n:
        raise_model(_np.exceptions.AxisError if hasattr(_np, "exceptions") else IndexError)
    return ax % n


class LinOp:
    """stand-in of pylops.LinearOperator"""

    def matvec(self, x):
        return self._matvec(x)

    def rmatvec(self, x):
        return self._rmatvec(x)


def to_numpy(x):
    return x


class _Logging(Stub):
    pass


def serial(name):
    """class of serial PyLops operators: the unit supplies its contract (ctx.mem["serial", name])"""
    def make(*a, **k):
        f = ctx().mem.get(("serial", name))
        if f is None:
            raise Unsupported(f"pylops.{name} without a contract")
        return f(*a, **k)
    make.__name__ = name
    return make


def make_modules():
    m = {}
    mpi = stub("mpi4py.MPI", COMM_WORLD=WORLD, Comm=smpi.SymComm, Op=smpi.Op, SUM=smpi.SUM, MAX=smpi.MAX, MIN=smpi.MIN, PROD=smpi.PROD)
    m["mpi4py.MPI"] = mpi
    m["mpi4py"] = stub("mpi4py", MPI=mpi)
    m["numpy"] = NP
    m["numpy.core.multiarray"] = stub("numpy.core.multiarray", normalize_axis_index=normalize_axis_index)
    core = stub("numpy.core", multiarray=m["numpy.core.multiarray"])
    m["numpy.core"] = core
    NP.__dict__["core"] = core
    m["numpy.lib.array_utils"] = stub("x", normalize_axis_index=normalize_axis_index)
    g = lambda engine=None: NP
    backend = stub("pylops.utils.backend", get_module=g, get_array_module=lambda x: NP, get_module_name=lambda x: "numpy",
                   to_numpy=to_numpy)
    typ = dict(DTypeLike=object, NDArray=SymArr, ShapeLike=tuple, InputDimsLike=tuple, Tuple=tuple)
    utils = stub("pylops.utils", backend=backend, **typ)
    m["pylops.utils"] = utils
    m["pylops.utils.backend"] = backend
    m["pylops.utils.typing"] = stub("pylops.utils.typing", **typ)
    m["pylops.utils._internal"] = stub("pylops.utils._internal", _value_or_sized_to_tuple=_value_or_sized_to_tuple)
    ops = dict(LinearOperator=LinOp, FirstDerivative=serial("FirstDerivative"), SecondDerivative=serial("SecondDerivative"), Identity=serial("Identity"))
    m["pylops.basicoperators"] = stub("pylops.basicoperators", **ops)
    m["pylops.signalprocessing"] = stub("pylops.signalprocessing", FFT=serial("FFT"), Fredholm1=serial("Fredholm1"))
    m["pylops"] = stub("pylops", utils=utils, basicoperators=m["pylops.basicoperators"], signalprocessing=m["pylops.signalprocessing"], **ops)
    from . import solver_base
    m["pylops.optimization.basesolver"] = stub("pylops.optimization.basesolver", Solver=solver_base.Solver)
    m["pylops.optimization"] = stub("pylops.optimization", basesolver=m["pylops.optimization.basesolver"])
    iface = stub("scipy.sparse.linalg._interface", _get_dtype=_get_dtype)
    m["scipy.sparse.linalg._interface"] = iface
    m["scipy.sparse._sputils"] = stub("scipy.sparse._sputils", isintlike=isintlike)
    for n in ("scipy", "scipy.sparse", "scipy.sparse.linalg"):
        m[n] = stub(n)
    anything = type("Any", (), {"__getattr__": lambda s, k: None})()
    m["matplotlib"] = stub("matplotlib", pyplot=anything)
    m["matplotlib.pyplot"] = anything
    m["time"] = stub("time", time=lambda: 0.0)
    m["logging"] = stub("logging", warning=lambda *a, **k: None, info=lambda *a, **k: None, basicConfig=lambda *a, **k: None, WARNING=30, getLogger=lambda *a: None)
    return m


def modular(real):
    """the decorator `reshaped`: as it is, unless the unit asks for its contract instead (spec.use_reshape_contract)"""
    def reshaped(func=None, forward=None, stacking=None, **kw):
        def decorator(f):
            actual = real(forward=forward, stacking=stacking, **kw)(f)

            def wrapper(self, x):
                contract = ctx().mem.get("reshape contract")
                if contract is None:
                    return actual(self, x)
                if kw:
                    raise Unsupported("reshaped with other arguments than its contract knows")
                return contract(self, f, x, forward, stacking)
            wrapper.__name__ = getattr(f, "__name__", "wrapper")
            wrapper.__wrapped__ = f
            return wrapper
        return decorator(func) if func is not None else decorator
    reshaped.real = real
    return reshaped


class Loader:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.ext = make_modules()
        self.src = {}
        self.builtins = dict(BUILTINS)
        self.builtins["__import__"] = self.imp
        self.builtins["type"] = s_type

    def path(self, name):
        rel = name.split(".")
        p = os.path.join(self.repo, *rel)
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path, pkg = self.path(name)
        if not os.path.exists(path):
            raise ImportError(name)
        text = open(path).read()
        self.src[name] = text
        mod = types.ModuleType(name)
        mod.__file__ = path
        if pkg:
            mod.__path__ = [os.path.dirname(path)]
        mod.__package__ = name if pkg else name.rpartition(".")[0]
        mod.__dict__["__builtins__"] = self.builtins
        self.mods[name] = mod
        tree = ast.parse(text, path)
        if tree.body and isinstance(tree.body[0], ast.Expr) and isinstance(tree.body[0].value, ast.Constant):
            tree.body.pop(0)
        rw = Rewrite(name)
        tree = rw.visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, "exec", dont_inherit=True)
        exec(code, mod.__dict__)
        if name == "pylops_mpi.utils.decorators":
            mod.__dict__["reshaped"] = modular(mod.__dict__["reshaped"])
        parent, _, leafn = name.rpartition(".")
        if parent and parent in self.mods:
            setattr(self.mods[parent], leafn, mod)
        return mod

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals["__package__"]
            for _ in range(level - 1):
                pk = pk.rpartition(".")[0]
            name = pk + ("." + name if name else "")
        if name == "pylops_mpi" or name.startswith("pylops_mpi."):
            if name in self.ext:
                return self.ext[name]
            parts = name.split(".")
            for k in range(1, len(parts) + 1):
                m = self.load(".".join(parts[:k]))
            for f in fromlist or ():
                if f != "*" and not hasattr(m, f) and hasattr(m, "__path__"):
                    try:
                        self.load(name + "." + f)
                    except ImportError:
                        raise
            return m if fromlist else self.mods[parts[0]]
        if name in self.ext:
            return self.ext[name] if fromlist else self.ext[name.split(".")[0]]
        root = name.split(".")[0]
        if root in ("typing", "functools", "enum", "numbers", "abc", "sys", "collections", "math", "itertools", "datetime", "warnings", "copy",
                    "operator", "inspect", "__future__", "os", "dataclasses", "contextlib", "re"):
            return builtins.__import__(name, None, None, fromlist or (), 0)
        raise ImportError(f"no model of module {name}")


_loader = None


def get_loader():
    global _loader
    if _loader is None:
        _loader = Loader()
        _loader.imp("pylops_mpi")
    return _loader
