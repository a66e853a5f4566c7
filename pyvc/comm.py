"""Communication obligations (C19): generated for every unit from the event sequences of all its paths.

Each path is taken by a generic process r. For two paths that two processes of one run may take (their conditions hold
together for some P, r1, r2) the collective operations must be the same, in the same order, on the same communicator, and
the messages one of them addresses to the other must be received there between the same collectives, in the same order.
Facts assumed when a path passed a collective or a receive ('the others got there as well') are used only for what happens
after it (induction over the collectives). Freedom from deadlock with blocking sends: the exchanges between neighbours are
ordered by a rank function (kind of exchange, position of the pair) that every process follows."""
import z3
from . import terms as T
from .terms import I, norm, mentions
from .engine import keep, Obligation, model_str

P2P = ("send", "recv")
NM_C = "communication: same collectives on all processes"
NM_M = "communication: messages are matched"
NM_D = "communication: exchanges are ordered"


class Rec:
    """event sequence of one path; complete: the operation returned at the end of it"""

    def __init__(self, c, ended, pending=None):
        self.c, self.pc = c, list(c.pc)
        self.raised = bool(c.raise_paths)
        self.complete = ended == "end"
        self.phases = [[]]       # messages between collectives
        self.coll = []           # collectives
        self.coll_pc = []        # path conditions when the collective is called
        for (comm, kind, det), n in zip(c.events, c.event_pc):
            if kind not in P2P:
                self.coll_pc.append(n)
            if kind in P2P:
                self.phases[-1].append((comm, kind, det))
            else:
                self.coll.append((comm, kind, det))
                self.phases.append([])

    def pc_at(self, m):
        """path conditions at collective m"""
        return self.pc[:self.coll_pc[m]] if m < len(self.coll_pc) else self.pc


def joint(a, b, m, extra=(), r2=None):
    """may two processes take the paths a and b in one run?  (what was learnt at collective number >= m is not used)
    -> (answer, model, definite)"""
    c, o = a.c, b.c
    r = c.r
    drop = {i for n, i in c.progress + o.progress if n >= m}
    sub = lambda f: z3.substitute(f, (r, r2))
    saved = c.facts, c.rank_facts, c.pc
    own = {f.get_id() for f in c.facts}
    try:
        c.facts = [f for f in saved[0] if f.get_id() not in drop]
        c.rank_facts = [f for f in saved[1] if not any(f is g and n >= m for n, g in c.stage_facts)]
        c.pc = a.pc_at(m)
        conds = [z3.And(r2 >= 0, r2 < c.P, r2 != r)] + [sub(p) for p in b.pc_at(m)] + list(extra)
        conds += [sub(f) for f in o.facts if f.get_id() not in own and f.get_id() not in drop and mentions(f, r)]
        res, model, definite, be = c.sat(conds, timeout=c.PROVE_TIMEOUT, want_model=True)
        return res, model, definite, be
    finally:
        c.facts, c.rank_facts, c.pc = saved


def show(e):
    comm, kind, det = e
    return f"{kind} on {comm}" + (f" {det}" if det is not None else "")


class Checker:
    def __init__(self):
        self.out = {}
        self.done = set()

    def verdict(self, name, res, definite, info, a, be="z3"):
        st = {"unsat": "proved", "sat": "refuted" if definite else "unknown", "unknown": "unknown"}[res]
        old = self.out.get(name)
        rank = {"proved": 0, "unknown": 1, "refuted": 2}
        if old is None or rank[st] > rank[old.status]:
            self.out[name] = Obligation(name, st, info if st != "proved" else None, tuple(a.c.decisions), be)

    def mismatch(self, name, a, b, m, what, extra=(), r2=None):
        r2 = T.fresh("q") if r2 is None else r2
        res, model, definite, be = joint(a, b, m, extra, r2)
        info = {"what": what, "one process": [str(p)[:160] for p in a.pc], "another": [str(p)[:160] for p in b.pc], "model": model_str(model)}
        self.verdict(name, res, definite, info, a, be)

    def collectives(self, a, b):
        for m, (x, y) in enumerate(zip(a.coll, b.coll)):
            if x[:2] != y[:2]:
                self.mismatch(NM_C, a, b, m, f"{show(x)} meets {show(y)}")
                return
            if x[2] is not None and y[2] is not None and not (x[2].eq(y[2]) and not mentions(x[2], a.c.r)):
                r2 = T.fresh("q")
                self.mismatch(NM_C, a, b, m, f"{show(x)} with another root", [x[2] != z3.substitute(y[2], (a.c.r, r2))], r2)
        if len(a.coll) != len(b.coll):
            s, l = (a, b) if len(a.coll) < len(b.coll) else (b, a)
            if s.complete:
                self.mismatch(NM_C, a, b, len(s.coll), f"{show(l.coll[len(s.coll)])} while another process has finished")

    def messages(self, a, b):
        """what the process of path a sends to the one of path b"""
        r = a.c.r
        n = max(len(a.phases), len(b.phases))
        for m in range(n):
            S = [e for e in (a.phases[m] if m < len(a.phases) else []) if e[1] == "send"]
            R = [e for e in (b.phases[m] if m < len(b.phases) else []) if e[1] == "recv"]
            if not S and not R:
                continue
            over_a = m < len(a.phases) - 1 or (m == len(a.phases) - 1 and a.complete)
            over_b = m < len(b.phases) - 1 or (m == len(b.phases) - 1 and b.complete)
            q = T.fresh("q")
            tests = [e[2][0] == q for e in S] + [z3.substitute(e[2][0], (r, q)) == r for e in R]
            self.split(a, b, m, q, S, R, tests, 0, [], over_a, over_b)

    def split(self, a, b, m, q, S, R, tests, k, conds, over_a, over_b):
        """which of the messages go from the one to the other?"""
        if k == len(tests):
            yes = {i for i, c in enumerate(conds) if c is True}
            if not yes:
                return
            s = [e for i, e in enumerate(S) if i in yes]
            t = [e for i, e in enumerate(R) if i + len(S) in yes]
            ex = [tests[i] if i in yes else z3.Not(tests[i]) for i in range(len(tests))]
            # neither of them knows whether the other one gets there: conditions of a and b, without later facts
            for x, y in zip(s, t):
                if x[0] != y[0] or x[2][1] != y[2][1]:
                    self.mismatch(NM_M, a, b, m, f"message {x[2]} meets receive {y[2]}", ex, q)
                    return
            if len(s) > len(t) and over_b:
                self.mismatch(NM_M, a, b, m, f"message to {s[len(t)][2]} is not received", ex, q)
            elif len(t) > len(s) and over_a:
                self.mismatch(NM_M, a, b, m, f"receive from {t[len(s)][2]} without a message", ex, q)
            else:
                self.verdict(NM_M, "unsat", True, None, a, "matching")
            return
        fixed = [tests[i] if v else z3.Not(tests[i]) for i, v in enumerate(conds)]
        for v in (True, False):
            res = joint(a, b, m, fixed + [tests[k] if v else z3.Not(tests[k])], q)[0]
            if res != "unsat":
                self.split(a, b, m, q, S, R, tests, k + 1, conds + [v], over_a, over_b)

    def ordered(self, recs):
        """a rank function for the exchanges: (order of the kinds of exchange, +- position)"""
        before, sense, bad = set(), {}, None
        any_ = False
        for a in recs:
            r = a.c.r
            for m, ph in enumerate(a.phases):
                seq, cnt = [], {}
                for comm, kind, (peer, tag) in ph:
                    any_ = True
                    d = norm(peer - r)
                    d = T.lit(I(d))
                    if d not in (1, -1):
                        bad = bad or f"message to or from a process that is no neighbour: {peer}"
                        continue
                    up = (kind == "send") == (d == 1)
                    edge = 0 if d == 1 else -1
                    j = cnt[comm, up, edge] = cnt.get((comm, up, edge), -1) + 1
                    seq.append(((m, comm, up, j), edge))
                for i, (ka, ea) in enumerate(seq):
                    for kb, eb in seq[i + 1:]:
                        if ka != kb:
                            before.add((ka, kb))
                        elif ea != eb:
                            s = 1 if ea < eb else -1
                            if sense.setdefault(ka, s) != s:
                                bad = bad or "processes go through the pairs in different directions"
        if not any_:
            return
        if bad is None:
            # is the order of the kinds acyclic?
            todo = {k for p in before for k in p}
            while todo:
                free = [k for k in todo if not any(y == k and x in todo for x, y in before)]
                if not free:
                    bad = "exchanges follow one another in different orders"
                    break
                todo -= set(free)
        a = recs[0]
        self.verdict(NM_D, "unsat" if bad is None else "unknown", False, {"what": bad}, a, "rank function")

    def run(self, recs, last):
        """recs: paths of one pass; called again for every pass"""
        recs = [x for x in recs if not x.raised]
        for i, a in enumerate(recs):
            for j in range(i, len(recs)):
                b = recs[j]
                self.collectives(a, b)
        if last:
            for a in recs:
                for b in recs:
                    self.messages(a, b)
            self.ordered(recs)
            if recs and NM_C not in self.out and any(x.coll for x in recs):
                self.verdict(NM_C, "unsat", True, None, recs[0], "event sequences")
