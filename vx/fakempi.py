"""In-process stand-in for mpi4py (trusted: the MPI contract).  Every rank is a thread.  Collectives are matched by
call order per communicator, as MPI prescribes; a mismatch or a deadlock is reported as MPIError in every rank.
Anything not modelled raises HarnessGap, which a check never reports as a violation."""

import sys
import gc
import threading
import types
import copy
import pickle

import numpy as np

from .core import HarnessGap


class MPIError(Exception):
    """The program broke the rules of MPI (mismatched collectives, deadlock, buffer reuse, bad type)."""


class _Op:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"MPI.{self.name}"


def _max(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.maximum(a, b)
    if a != a:
        return a
    return b if (b != b or b > a) else a


def _min(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.minimum(a, b)
    if a != a:
        return a
    return b if (b != b or b < a) else a


SUM = _Op("SUM", lambda a, b: a + b)
PROD = _Op("PROD", lambda a, b: a * b)
MAX = _Op("MAX", _max)
MIN = _Op("MIN", _min)
LOR = _Op("LOR", lambda a, b: np.logical_or(a, b))
LAND = _Op("LAND", lambda a, b: np.logical_and(a, b))
LXOR = _Op("LXOR", lambda a, b: np.logical_xor(a, b))
BOR = _Op("BOR", lambda a, b: a | b)
BAND = _Op("BAND", lambda a, b: a & b)
BXOR = _Op("BXOR", lambda a, b: a ^ b)


class World:
    def __init__(self, n):
        self.n = n
        self.cv = threading.Condition()
        self.active = n
        self.waiting = 0
        self.waiters = {}
        self.slots = {}
        self.next_id = [0]
        self.dead = None
        self.log = []

    def wait_for(self, pred, what):
        """Called with self.cv held."""
        me = threading.get_ident()
        self.waiters[me] = (pred, what)
        try:
            while not pred():
                if self.dead:
                    raise MPIError(self.dead)
                if len(self.waiters) >= self.active and not any(p() for p, _ in self.waiters.values()):
                    kinds = sorted({w for _, w in self.waiters.values()})
                    self.dead = f"deadlock: {self.n - self.active} rank(s) left, the others wait in {kinds}"
                    self.cv.notify_all()
                    raise MPIError(self.dead)
                self.cv.wait(60)
        finally:
            del self.waiters[me]

    def finish(self):
        with self.cv:
            self.active -= 1
            if self.active > 0 and len(self.waiters) >= self.active and not any(p() for p, _ in self.waiters.values()):
                kinds = sorted({w for _, w in self.waiters.values()})
                self.dead = self.dead or f"deadlock: {self.n - self.active} rank(s) left, the others wait in {kinds}"
            self.cv.notify_all()


def _buf(x):
    if isinstance(x, (list, tuple)):
        return x[0]
    return x


class Request:
    def __init__(self, fn):
        self._fn, self._done = fn, False

    def Wait(self, status=None):
        if not self._done:
            self._fn()
            self._done = True
        return True

    wait = Wait

    def Test(self):
        self.Wait()
        return True

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise HarnessGap(f"MPI.Request.{k}")


class Comm:
    def __init__(self, world, gid, members, rank):
        self._w, self._gid, self._members, self._rank = world, gid, members, rank
        self._seq = 0
        self._nbseq = 0
        self._topo = None

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise HarnessGap(f"MPI.Comm.{k}")

    def __eq__(self, o):
        o = o._cur() if isinstance(o, _WorldProxy) else o
        return isinstance(o, Comm) and o._gid == self._gid and o._w is self._w

    def __hash__(self):
        return hash(self._gid)

    rank = property(lambda s: s._rank)
    size = property(lambda s: len(s._members))
    name = "fake"

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return len(self._members)

    # -- core rendezvous
    def _coll(self, op, payload):
        w = self._w
        key = ("c", self._gid, self._seq)
        self._seq += 1
        with w.cv:
            slot = w.slots.setdefault(key, {})
            slot[self._rank] = (op, payload)
            if w.n <= 64:
                w.log.append((self._gid, self._rank, op))
            w.cv.notify_all()
            w.wait_for(lambda: len(slot) == len(self._members), op.split("(")[0])
            ops = {o for o, _ in slot.values()}
            if len(ops) != 1:
                w.dead = w.dead or f"mismatched collectives {sorted(ops)}"
                raise MPIError(f"mismatched collectives {sorted(ops)}")
            return [slot[r][1] for r in range(len(self._members))]

    @staticmethod
    def _cp(x):
        try:
            return pickle.loads(pickle.dumps(x))
        except HarnessGap:
            raise
        except Exception:
            return copy.deepcopy(x)

    def bcast(self, obj=None, root=0):
        vals = self._coll(f"bcast({root})", self._cp(obj) if self._rank == root else None)
        return obj if self._rank == root else self._cp(vals[root])

    def barrier(self):
        self._coll("barrier", None)

    Barrier = barrier

    def gather(self, sendobj, root=0):
        vals = self._coll(f"gather({root})", self._cp(sendobj))
        return [self._cp(v) for v in vals] if self._rank == root else None

    def allgather(self, sendobj):
        return [self._cp(v) for v in self._coll("allgather", self._cp(sendobj))]

    def scatter(self, sendobj=None, root=0):
        if self._rank == root and (sendobj is None or len(sendobj) != len(self._members)):
            self._coll(f"scatter({root})", None)
            raise ValueError(f"expecting {len(self._members)} items")
        vals = self._coll(f"scatter({root})", self._cp(list(sendobj)) if self._rank == root else None)
        if vals[root] is None:
            raise MPIError("scatter failed at the root")
        return vals[root][self._rank]

    def _red(self, vals, op):
        r = vals[0]
        for v in vals[1:]:
            r = op.fn(r, v)
        return r

    def allreduce(self, sendobj, op=SUM):
        return self._cp(self._red(self._coll(f"allreduce({op.name})", self._cp(sendobj)), op))

    def reduce(self, sendobj, op=SUM, root=0):
        vals = self._coll(f"reduce({op.name},{root})", self._cp(sendobj))
        return self._red(vals, op) if self._rank == root else None

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        s = recvbuf if sendbuf is IN_PLACE else sendbuf
        arr = np.array(_buf(s))
        vals = self._coll(f"Allreduce({op.name})", arr)
        out = _buf(recvbuf)
        if len({v.size for v in vals}) != 1:
            raise MPIError(f"Allreduce with different counts {[v.size for v in vals]}")
        if out.size < arr.size:
            raise MPIError(f"Allreduce truncation: {arr.size} -> {out.size}")
        r = self._red([v.reshape(-1) for v in vals], op)
        if r.dtype != out.dtype and not (isinstance(sendbuf, (list, tuple))):
            raise MPIError(f"Allreduce type mismatch {r.dtype} -> {out.dtype}")
        flat = out.reshape(-1)
        flat[: r.size] = r
        if not np.shares_memory(flat, out):
            out[...] = flat.reshape(out.shape)

    def Bcast(self, buf, root=0):
        b = _buf(buf)
        vals = self._coll(f"Bcast({root})", np.array(b) if self._rank == root else None)
        if self._rank != root:
            b[...] = vals[root].reshape(b.shape)

    def Gather(self, sendbuf, recvbuf, root=0):
        vals = self._coll(f"Gather({root})", np.array(_buf(sendbuf)))
        if self._rank == root:
            out = _buf(recvbuf)
            out[...] = np.concatenate([v.reshape(-1) for v in vals]).reshape(out.shape)

    def Allgather(self, sendbuf, recvbuf):
        vals = self._coll("Allgather", np.array(_buf(sendbuf)))
        out = _buf(recvbuf)
        out[...] = np.concatenate([v.reshape(-1) for v in vals]).reshape(out.shape)

    def Split(self, color=0, key=0):
        vals = self._coll("Split", (color, key))
        if color is None:
            return COMM_NULL
        mine = sorted((k, r) for r, (c, k) in enumerate(vals) if c == color)
        members = [self._members[r] for _, r in mine]
        rank = [r for _, r in mine].index(self._rank)
        gid = (self._gid, "split", self._seq, int(color))
        return Comm(self._w, gid, members, rank)

    def Dup(self):
        self._coll("Dup", None)
        return Comm(self._w, (self._gid, "dup", self._seq), self._members, self._rank)

    def Create_dist_graph_adjacent(self, sources, destinations, *a, **k):
        vals = self._coll("Create_dist_graph_adjacent", ([int(x) for x in sources], [int(x) for x in destinations]))
        # MPI: the edges must agree
        for r, (src, dst) in enumerate(vals):
            for s in src:
                if not 0 <= s < len(vals):
                    raise MPIError(f"invalid neighbour rank {s}")
            for d in set(dst):
                if not 0 <= d < len(vals) or vals[d][0].count(r) != dst.count(d):
                    raise MPIError(f"inconsistent graph: {r} sends to {d}, which does not receive from it")
        c = Comm(self._w, (self._gid, "graph", self._seq), self._members, self._rank)
        c._topo = vals
        return c

    def Ineighbor_alltoall(self, sendbuf, recvbuf):
        w = self._w
        topo = self._topo
        if topo is None:
            raise MPIError("no topology attached to the communicator")
        src, dst = topo[self._rank]
        sb, rb = _buf(sendbuf), _buf(recvbuf)
        for b in (sb, rb):
            if not b.flags["C_CONTIGUOUS"]:
                raise MPIError("buffer is not contiguous")
        snap = sb.copy()
        seq = self._nbseq
        self._nbseq += 1
        key = ("nb", self._gid, seq)
        if sb.size % len(dst) or rb.size % len(src):
            raise MPIError("neighbour buffers cannot be split evenly")
        if rb.dtype.kind in "fc":
            rb[...] = np.nan  # contents are undefined until the request completes
        with w.cv:
            slot = w.slots.setdefault(key, {})
            slot[self._rank] = snap.reshape(len(dst), -1)
            w.cv.notify_all()

        def complete():
            with w.cv:
                w.wait_for(lambda: all(s in slot for s in src), "neighbor_alltoall")
            same = sb == snap
            if sb.dtype.kind in "fc":
                same = same | ((sb != sb) & (snap != snap))
            if not np.all(same):
                raise MPIError("send buffer modified while the exchange was in flight")
            out = rb.reshape(len(src), -1)
            seen = {}
            for i, s in enumerate(src):
                k = seen.get(s, 0)
                seen[s] = k + 1
                js = [j for j, d in enumerate(topo[s][1]) if d == self._rank]
                data = slot[s][js[k]]
                if data.size != out.shape[1] or data.dtype != out.dtype:
                    raise MPIError(f"neighbour exchange size/type mismatch: {data.size} {data.dtype} vs {out.shape[1]}")
                out[i] = data

        return Request(complete)

    def Neighbor_alltoall(self, s, r):
        self.Ineighbor_alltoall(s, r).Wait()

    # -- point to point (buffered)
    def _send(self, data, dest, tag):
        w = self._w
        with w.cv:
            w.slots.setdefault(("p", self._gid, self._rank, dest, tag), []).append(data)
            w.cv.notify_all()

    def _recv(self, source, tag):
        w = self._w
        with w.cv:
            q = w.slots.setdefault(("p", self._gid, source, self._rank, tag), [])
            w.wait_for(lambda: len(q) > 0, "recv")
            return q.pop(0)

    def send(self, obj, dest, tag=0):
        self._send(self._cp(obj), dest, tag)

    def recv(self, buf=None, source=0, tag=0, status=None):
        return self._recv(source, tag)

    def Send(self, buf, dest, tag=0):
        self._send(np.array(_buf(buf)), dest, tag)

    def Recv(self, buf, source=0, tag=0, status=None):
        b = _buf(buf)
        b[...] = self._recv(source, tag).reshape(b.shape)

    def Isend(self, buf, dest, tag=0):
        self.Send(buf, dest, tag)
        return Request(lambda: None)

    def Irecv(self, buf, source=0, tag=0):
        return Request(lambda: self.Recv(buf, source, tag))

    def Free(self):
        pass

    def Abort(self, code=1):
        raise MPIError("Abort")


class _Null:
    rank = property(lambda s: (_ for _ in ()).throw(MPIError("COMM_NULL used")))

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)

        def bad(*a, **kw):
            raise MPIError(f"COMM_NULL.{k}")

        return bad

    def __deepcopy__(self, memo):
        return self

    def __bool__(self):
        return False


COMM_NULL = _Null()
IN_PLACE = object()
_tl = threading.local()


def _solo():
    w = World(1)
    return Comm(w, "world", [0], 0)


class _WorldProxy(Comm):
    def __init__(self):
        pass

    @staticmethod
    def _cur():
        c = getattr(_tl, "comm", None)
        if c is None:
            c = _tl.comm = _solo()
        return c

    def __getattribute__(self, k):
        if k in ("_cur", "__class__", "__deepcopy__", "__reduce_ex__", "__reduce__"):
            return object.__getattribute__(self, k)
        return getattr(_WorldProxy._cur(), k)

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, o):
        return o is self or self._cur() == o

    def __hash__(self):
        return hash(self._cur())


COMM_WORLD = _WorldProxy()


def run_world(n, fn, timeout=300):
    """Run fn(rank, comm) on n ranks.  Returns [(value, exception)] per rank."""
    w = World(n)
    res = [None] * n

    def body(r):
        comm = Comm(w, "world", list(range(n)), r)
        _tl.comm = comm
        from . import core

        core.set_ctx(None)
        try:
            res[r] = (fn(r, comm), None)
        except BaseException as e:  # noqa: every ending of a rank is an observation
            res[r] = (None, e)
        finally:
            _tl.comm = None
            w.finish()

    ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(n)]
    # solver objects are released through calls that drop the interpreter lock: no collection in the threads
    collecting = gc.isenabled()
    gc.disable()
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(timeout)
    finally:
        if collecting:
            gc.enable()
    for r, t in enumerate(ts):
        if t.is_alive() and res[r] is None:
            res[r] = (None, HarnessGap("rank did not finish in time"))
    for v, e in res:
        if isinstance(e, HarnessGap):
            raise e
    return res, w


def values(n, fn, timeout=300):
    """The values of fn(rank, comm) on n ranks; what a rank raised is raised again."""
    res, _ = run_world(n, fn, timeout)
    errs = [e for _, e in res if e is not None and not isinstance(e, Aborted if "Aborted" in globals() else ())]
    # a deadlock among the others follows from what a rank raised itself
    for e in sorted(errs, key=lambda e: isinstance(e, MPIError)):
        raise e
    return [v for v, _ in res]


def install():
    if "mpi4py" in sys.modules and getattr(sys.modules["mpi4py"], "__vx_fake__", False):
        return
    pkg = types.ModuleType("mpi4py")
    pkg.__vx_fake__ = True
    pkg.__path__ = []
    m = types.ModuleType("mpi4py.MPI")
    for k in ("SUM", "PROD", "MAX", "MIN", "LOR", "LAND", "LXOR", "BOR", "BAND", "BXOR", "COMM_WORLD", "COMM_NULL", "IN_PLACE", "Comm", "Request"):
        setattr(m, k, globals()[k])
    m.COMM_SELF = _solo()
    m.DOUBLE, m.FLOAT, m.INT, m.BOOL, m.C_BOOL, m.LONG, m.INT64_T = "d", "f", "i", "?", "?", "l", "q"
    m.Intracomm = Comm
    m.Op = _Op
    m.Exception = MPIError
    import time

    m.Wtime = time.time
    m.UNDEFINED = None
    m.ANY_SOURCE = -1
    m.ANY_TAG = -1
    m.Is_initialized = lambda: True
    m.Is_finalized = lambda: False
    m.__getattr__ = lambda k: (_ for _ in ()).throw(AttributeError(k) if k.startswith("__") else HarnessGap("MPI." + k))
    pkg.MPI = m
    pkg.rc = types.SimpleNamespace()
    sys.modules["mpi4py"] = pkg
    sys.modules["mpi4py.MPI"] = m
