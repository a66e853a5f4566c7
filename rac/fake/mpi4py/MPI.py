import operator
import pickle
import random
import threading
import time as _time

import numpy as np

ANY_SOURCE = -2
ANY_TAG = -1
PROC_NULL = -3
UNDEFINED = -32766
ROOT = -4
IN_PLACE = 1
THREAD_MULTIPLE = 3


class Exception(RuntimeError):  # noqa: A001  (mpi4py.MPI.Exception)
    pass


class CollectiveMismatch(BaseException):
    pass


class Deadlock(BaseException):
    """delivered to a rank that can never continue"""


class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, x, y):
        return self.f(x, y)

    def __repr__(self):
        return f"<Op {self.name}>"


def _elt(np_f, py_f):
    def f(x, y):
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            return np_f(x, y)
        return py_f(x, y)
    return f


# mpi4py applies the Python operator to pickled objects
SUM = Op("SUM", operator.add)
PROD = Op("PROD", operator.mul)
MAX = Op("MAX", lambda x, y: y if y > x else x)
MIN = Op("MIN", lambda x, y: y if y < x else x)
LAND = Op("LAND", lambda x, y: bool(x) & bool(y))
LOR = Op("LOR", lambda x, y: bool(x) | bool(y))
BAND = Op("BAND", operator.and_)
BOR = Op("BOR", operator.or_)
_BUF = {"SUM": np.add, "PROD": np.multiply, "MAX": np.maximum, "MIN": np.minimum,
        "LAND": np.logical_and, "LOR": np.logical_or}

_tls = threading.local()


class World:
    """one parallel run"""

    def __init__(self, size, seed=0):
        self.size = size
        self.rng = random.Random(seed)
        self.lock = threading.Condition()
        self.current = None
        self.state = ["run"] * size     # run | wait | done
        self.waitfn = [None] * size
        self.where = [""] * size
        self.trace = [[] for _ in range(size)]   # (comm id, op, detail)
        self.outcome = [None] * size
        self.groups = {}
        self.ncomm = 1
        self.world = Group(self, 0, list(range(size)))
        self.groups[0] = self.world
        self.dead = False
        self.mismatch = None
        self.problems = []

    # ---- scheduling (one thread runs at a time; switches at communication)
    def _pick(self):
        ready = []
        for k in range(self.size):
            if self.state[k] == "run":
                ready.append(k)
            elif self.state[k] == "wait" and self.waitfn[k]():
                ready.append(k)
        if ready:
            k = ready[0] if len(ready) == 1 else self.rng.choice(ready)
            self.state[k] = "run"
            self.current = k
        elif any(s == "wait" for s in self.state):
            self.dead = True
            k = [i for i, s in enumerate(self.state) if s == "wait"][0]
            self.state[k] = "run"
            self.current = k
        else:
            self.current = None
        self.lock.notify_all()

    def wait(self, rank, cond, where):
        """block rank until cond()"""
        with self.lock:
            self.where[rank] = where
            self.state[rank] = "wait"
            self.waitfn[rank] = cond
            self._pick()
            while self.current != rank:
                self.lock.wait()
            if self.dead and not cond():
                raise Deadlock(where)

    def switch(self, rank):
        self.wait(rank, lambda: True, "switch")

    def start(self, rank, fn, args):
        with self.lock:
            while self.current != rank:
                self.lock.wait()
        _tls.world, _tls.rank = self, rank
        try:
            self.outcome[rank] = ("ok", fn(*args))
        except Deadlock as e:
            self.outcome[rank] = ("blocked", str(e))
        except CollectiveMismatch as e:
            self.outcome[rank] = ("mismatch", str(e))
        except BaseException as e:  # noqa: BLE001
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f"{f.filename}:{f.lineno}" for f in tb][-4:]
            self.outcome[rank] = ("raise", type(e).__name__, str(e)[:300], loc)
        with self.lock:
            self.state[rank] = "done"
            self._pick()


def run(size, fn, args=(), seed=0, per_rank_args=None):
    """-> World with .outcome[rank], .trace[rank]"""
    w = World(size, seed)
    ts = []
    for k in range(size):
        a = args if per_rank_args is None else per_rank_args[k]
        t = threading.Thread(target=w.start, args=(k, fn, a), daemon=True)
        ts.append(t)
        t.start()
    with w.lock:
        w._pick()
    for t in ts:
        t.join(120)
        if t.is_alive():
            w.problems.append("thread did not end")
    # every posted message must have been received
    for g in w.groups.values():
        for (s, d, tag), q in g.box.items():
            if q:
                w.problems.append(f"message {s}->{d} tag {tag} on comm {g.id} never received")
    return w


def _dup(x):
    return pickle.loads(pickle.dumps(x, -1))


class Group:
    """a communicator shared by its members"""

    def __init__(self, world, gid, members):
        self.world, self.id, self.members = world, gid, members
        self.size = len(members)
        self.count = {m: 0 for m in members}
        self.slots = {}
        self.box = {}
        self.seq = {}

    def collective(self, rank, op, contrib, combine, detail=None):
        """all members call; combine(list)->list of results"""
        w = self.world
        i = self.count[rank]
        self.count[rank] += 1
        slot = self.slots.setdefault(i, {"op": op, "in": {}, "out": None, "left": 0})
        w.trace[rank].append((self.id, op, detail))
        if slot["op"] != op:
            w.mismatch = f"rank {rank} calls {op} as collective #{i} of communicator {self.id} where another rank calls {slot['op']}"
            raise CollectiveMismatch(w.mismatch)
        slot["in"][rank] = contrib
        if len(slot["in"]) == self.size:
            slot["out"] = combine([slot["in"][m] for m in self.members])
        w.wait(rank, lambda: slot["out"] is not None, f"{op} #{i} on communicator {self.id}")
        r = slot["out"][self.members.index(rank)]
        slot["left"] += 1
        if slot["left"] == self.size:
            self.slots[i] = {"op": op, "in": {}, "out": None, "left": 0}
        if isinstance(r, BaseException):
            raise r
        return r


class Request:
    def __init__(self, fn):
        self.fn, self.done, self.val = fn, False, None

    def wait(self, status=None):
        if not self.done:
            self.val = self.fn()
            self.done = True
        return self.val

    Wait = wait

    def test(self):
        return (self.done, self.val)

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]

    Waitall = waitall


class Status:
    pass


class Comm:
    """handle; for COMM_WORLD the group is that of the current thread's world"""

    def __init__(self, group=None, kind="world"):
        self._g, self._kind = group, kind

    # ---- identity
    @property
    def _group(self):
        if self._g is not None:
            return self._g
        w = getattr(_tls, "world", None)
        if w is None:
            raise RuntimeError("no parallel run in this thread")
        if self._kind == "self":
            key = ("self", _tls.rank)
            g = w.groups.get(key)
            if g is None:
                g = w.groups[key] = Group(w, f"self{_tls.rank}", [_tls.rank])
            return g
        return w.world

    @property
    def _me(self):
        return _tls.rank

    def Get_rank(self):
        if self._g is None and not hasattr(_tls, "world"):
            return 0
        return self._group.members.index(self._me)

    def Get_size(self):
        if self._g is None and not hasattr(_tls, "world"):
            return 1
        return self._group.size

    rank = property(Get_rank)
    size = property(Get_size)

    def __eq__(self, o):
        return isinstance(o, Comm) and self._group is o._group

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return id(self._group)

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError("communicators cannot be pickled")

    @property
    def name(self):
        return f"comm{self._group.id}"

    Get_name = lambda self: self.name  # noqa: E731
    Free = lambda self: None  # noqa: E731

    # ---- collectives on objects
    def allgather(self, sendobj):
        x = pickle.dumps(sendobj, -1)
        return self._group.collective(self._me, "allgather", x,
                                      lambda l: [[pickle.loads(b) for b in l] for _ in l])

    def gather(self, sendobj, root=0):
        x = pickle.dumps(sendobj, -1)
        return self._group.collective(self._me, "gather", x,
                                      lambda l: [[pickle.loads(b) for b in l] if i == root else None for i in range(len(l))], root)

    def bcast(self, obj=None, root=0):
        x = pickle.dumps(obj, -1) if self.Get_rank() == root else None
        return self._group.collective(self._me, "bcast", x, lambda l: [pickle.loads(l[root]) for _ in l], root)

    def scatter(self, sendobj=None, root=0):
        x = pickle.dumps(sendobj, -1) if self.Get_rank() == root else None
        return self._group.collective(self._me, "scatter", x, lambda l: list(pickle.loads(l[root])), root)

    def alltoall(self, sendobj):
        x = pickle.dumps(list(sendobj), -1)
        return self._group.collective(self._me, "alltoall", x,
                                      lambda l: [[pickle.loads(b)[i] for b in l] for i in range(len(l))])

    def _reduce(self, objs, op):
        xs = [pickle.loads(b) for b in objs]
        r = xs[0]
        for x in xs[1:]:
            r = op(r, x)
        return r

    def allreduce(self, sendobj, op=SUM):
        x = pickle.dumps(sendobj, -1)

        def comb(l):
            try:
                r = pickle.dumps(self._reduce(l, op), -1)
            except RuntimeError as e:
                return [e] * len(l)
            except ValueError as e:
                return [e] * len(l)
            except TypeError as e:
                return [e] * len(l)
            return [pickle.loads(r) for _ in l]
        return self._group.collective(self._me, "allreduce", x, comb, op.name)

    def reduce(self, sendobj, op=SUM, root=0):
        x = pickle.dumps(sendobj, -1)
        return self._group.collective(self._me, "reduce", x,
                                      lambda l: [self._reduce(l, op) if i == root else None for i in range(len(l))], (op.name, root))

    def scan(self, sendobj, op=SUM):
        x = pickle.dumps(sendobj, -1)
        return self._group.collective(self._me, "scan", x, lambda l: [self._reduce(l[:i + 1], op) for i in range(len(l))], op.name)

    def exscan(self, sendobj, op=SUM):
        x = pickle.dumps(sendobj, -1)
        return self._group.collective(self._me, "exscan", x,
                                      lambda l: [self._reduce(l[:i], op) if i else None for i in range(len(l))], op.name)

    def barrier(self):
        return self._group.collective(self._me, "barrier", None, lambda l: ["ok"] * len(l)) and None

    Barrier = barrier

    # ---- collectives on buffers
    @staticmethod
    def _buf(x):
        if isinstance(x, (list, tuple)):
            x = x[0]
        a = np.asarray(x)
        return a

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        if sendbuf is IN_PLACE or sendbuf is None:
            sendbuf = recvbuf
        s, r = self._buf(sendbuf), self._buf(recvbuf)
        if not r.flags.c_contiguous or not (s.flags.c_contiguous or s.flags.f_contiguous):
            raise BufferError("ndarray is not contiguous")

        def comb(l):
            acc = l[0].copy()
            for x in l[1:]:
                if x.size != acc.size or x.dtype != acc.dtype:
                    return [Exception("MPI_ERR_TRUNCATE: message truncated")] * len(l)
                acc = _BUF[op.name](acc, x)
            return [acc.copy() for _ in l]
        res = self._group.collective(self._me, "Allreduce", s.copy(order="K").ravel(order="K"), comb, op.name)
        if r.dtype != res.dtype or r.size < res.size:
            raise Exception("MPI_ERR_TRUNCATE: message truncated")
        r.reshape(-1)[:res.size] = res

    def Bcast(self, buf, root=0):
        b = self._buf(buf)
        x = b.copy() if self.Get_rank() == root else None
        res = self._group.collective(self._me, "Bcast", x, lambda l: [l[root].copy() for _ in l], root)
        if res.size > b.size or res.dtype != b.dtype:
            raise Exception("MPI_ERR_TRUNCATE: message truncated")
        b.reshape(-1)[:res.size] = res.reshape(-1)

    def Allgather(self, sendbuf, recvbuf):
        s, r = self._buf(sendbuf), self._buf(recvbuf)
        res = self._group.collective(self._me, "Allgather", s.copy().ravel(), lambda l: [np.concatenate(l) for _ in l])
        r.reshape(-1)[:res.size] = res

    def Allgatherv(self, sendbuf, recvbuf):
        return self.Allgather(sendbuf, recvbuf)

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        s = self._buf(sendbuf)

        def comb(l):
            acc = l[0]
            for x in l[1:]:
                acc = _BUF[op.name](acc, x)
            return [acc.copy() for _ in l]
        res = self._group.collective(self._me, "Reduce", s.copy().ravel(), comb, (op.name, root))
        if self.Get_rank() == root:
            self._buf(recvbuf).reshape(-1)[:res.size] = res

    # ---- communicators
    def Split(self, color=0, key=0):
        g = self._group

        def comb(l):
            cols = {}
            for i, (c, k) in enumerate(l):
                cols.setdefault(c, []).append((k, i))
            out = [None] * len(l)
            for c, ms in cols.items():
                if c == UNDEFINED:
                    for _, i in ms:
                        out[i] = "null"
                    continue
                mem = [g.members[i] for _, i in sorted(ms)]
                n = Group(g.world, g.world.ncomm, mem)
                g.world.groups[n.id] = n
                g.world.ncomm += 1
                for _, i in ms:
                    out[i] = n
            return out
        r = g.collective(self._me, "Split", (color, key), comb)
        return COMM_NULL if r == "null" else Comm(r, "split")

    def Dup(self, info=None):
        return self.Split(0, self.Get_rank())

    Clone = Dup

    # ---- point to point (rendezvous: a send completes when it is received)
    def _post(self, kind, dest, tag, payload, block):
        g, me = self._group, self._me
        w = g.world
        if dest == PROC_NULL:
            return None
        d = g.members[dest]
        q = g.box.setdefault((me, d, tag), [])
        msg = {"data": payload, "taken": False}
        q.append(msg)
        w.trace[me].append((g.id, kind, (dest, tag)))
        if block:
            w.wait(me, lambda: msg["taken"], f"send to {dest} tag {tag} on communicator {g.id}")
        return msg

    def _take(self, source, tag):
        g, me = self._group, self._me
        w = g.world

        def find():
            for (s, d, t), q in sorted(g.box.items(), key=lambda z: (z[0][0], z[0][1], str(z[0][2]))):
                if d == me and q and (source == ANY_SOURCE or s == g.members[source]) and (tag == ANY_TAG or t == tag):
                    return q
            return None
        w.trace[me].append((g.id, "recv", (source, tag)))
        w.wait(me, lambda: find() is not None, f"receive from {source} tag {tag} on communicator {g.id}")
        q = find()
        msg = q.pop(0)
        msg["taken"] = True
        return msg["data"]

    def send(self, obj, dest, tag=0):
        self._post("send", dest, tag, pickle.dumps(obj, -1), True)

    ssend = send
    bsend = send

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        if source == PROC_NULL:
            return None
        return pickle.loads(self._take(source, tag))

    def isend(self, obj, dest, tag=0):
        msg = self._post("isend", dest, tag, pickle.dumps(obj, -1), False)
        w, me = self._group.world, self._me
        return Request(lambda: w.wait(me, lambda: msg is None or msg["taken"], f"wait for send to {dest}"))

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(lambda: self.recv(source=source, tag=tag))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        rq = self.isend(sendobj, dest, sendtag)
        v = self.recv(source=source, tag=recvtag)
        rq.wait()
        return v

    def Send(self, buf, dest, tag=0):
        self._post("Send", dest, tag, self._buf(buf).copy(), True)

    Ssend = Send

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        if source == PROC_NULL:
            return
        d = self._take(source, tag)
        b = self._buf(buf)
        if d.size > b.size or d.dtype != b.dtype:
            raise Exception("MPI_ERR_TRUNCATE: message truncated")
        b.reshape(-1)[:d.size] = d.reshape(-1)

    def Isend(self, buf, dest, tag=0):
        msg = self._post("Isend", dest, tag, self._buf(buf).copy(), False)
        w, me = self._group.world, self._me
        return Request(lambda: w.wait(me, lambda: msg is None or msg["taken"], f"wait for send to {dest}"))

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(lambda: self.Recv(buf, source, tag))

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        rq = self.Isend(sendbuf, dest, sendtag)
        self.Recv(recvbuf, source, recvtag)
        rq.wait()

    def Abort(self, code=0):
        raise RuntimeError("MPI_Abort")


Intracomm = Comm
COMM_WORLD = Comm(None, "world")
COMM_SELF = Comm(None, "self")
COMM_NULL = None


def Wtime():
    return _time.time()


def Is_initialized():
    return True


def Is_finalized():
    return False


def Init():
    pass


def Finalize():
    pass


def Get_processor_name():
    return "fake"


for _n in ("DOUBLE", "FLOAT", "INT", "LONG", "INT64_T", "BYTE", "COMPLEX", "DOUBLE_COMPLEX", "BOOL"):
    globals()[_n] = _n
