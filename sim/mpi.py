"""Simulated MPI: ranks are processes, a hub decides who goes on.

One rank runs at a time, from one communication to the next; the order is drawn
from the seed.  Collective calls match by their order on each rank."""
import os
import pickle
import random
import struct
import sys
import types

from sim import core


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<I", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    def need(n):
        out = b""
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                raise EOFError
            out += c
        return out

    return pickle.loads(need(struct.unpack("<I", need(4))[0]))


class Comm:
    def __init__(self, rank, size, fin, fout):
        self.rank, self.size, self._in, self._out = rank, size, fin, fout

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _call(self, op, data=None, root=0):
        if not 0 <= root < self.size:
            raise ValueError("MPI_ERR_ROOT: invalid root")
        _send(self._out, (op, root, data))
        return _recv(self._in)

    def scatter(self, sendobj, root=0):
        if self.rank == root:
            sendobj = list(sendobj)
            if len(sendobj) != self.size:
                raise ValueError("expecting %d items, got %d" % (self.size, len(sendobj)))
        return self._call("scatter", sendobj if self.rank == root else None, root)

    def gather(self, sendobj, root=0):
        return self._call("gather", sendobj, root)

    def bcast(self, obj, root=0):
        return self._call("bcast", obj if self.rank == root else None, root)

    def allgather(self, sendobj):
        return self._call("allgather", sendobj)

    def allreduce(self, sendobj, op=None):
        vals = self._call("allgather", sendobj)
        return sum(vals) if op in (None, "SUM") else (max if op == "MAX" else min if op == "MIN" else all)(vals)

    def barrier(self):
        self._call("allgather", None)

    Barrier = barrier


def install(comm):
    m, M = types.ModuleType("mpi4py"), types.ModuleType("mpi4py.MPI")
    M.COMM_WORLD = comm
    M.SUM, M.MAX, M.MIN, M.LAND = "SUM", "MAX", "MIN", "LAND"
    m.MPI = M
    m.__path__ = []
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = m, M


def run(size, seed, eager, program, consoles):
    """Runs program(rank) on every rank; returns (results, problem, switches)."""
    rng = random.Random(seed)
    pids, ups, downs = [], [], []
    for r in range(size):
        a, b = os.pipe()
        c, d = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(a)
                os.close(d)
                fd = os.open(consoles[r], os.O_WRONLY | os.O_CREAT | os.O_APPEND)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                _recv(c)
                install(Comm(r, size, c, b))
                try:
                    out = ("done", 0, ("ok", program(r)))
                except BaseException as e:  # noqa
                    out = ("done", 0, ("raised", "%s: %s" % (type(e).__name__, e)))
                sys.stdout.flush()
                sys.stderr.flush()
                _send(b, out)
                code = 0
            finally:
                os._exit(code)
        os.close(b)
        os.close(c)
        pids.append(pid)
        ups.append(a)
        downs.append(d)
    posted = [[] for _ in range(size)]  # collective calls of each rank, in order
    state = ["start"] * size
    results = [None] * size
    switches, last, problem, order = 0, None, None, []

    def at(r, k):
        return posted[r][k] if len(posted[r]) > k else None

    def answer(r):
        """None if the rank has to wait, else (value,)"""
        if state[r] == "start":
            return (None,)
        if state[r] != "wait":
            return None
        k = len(posted[r]) - 1
        op, root, data = posted[r][k]
        peers = [at(q, k) for q in range(size)]
        if any(p is not None and p[:2] != (op, root) for p in peers):
            return None
        full = all(p is not None for p in peers)
        if op == "scatter":
            src = peers[root]
            return (pickle.loads(pickle.dumps(src[2][r])),) if src is not None and (eager or full) else None
        if op == "bcast":
            src = peers[root]
            return (src[2],) if src is not None and (eager or full) else None
        if op == "gather":
            if r == root:
                return ([p[2] for p in peers],) if full else None
            return (None,) if eager or full else None
        if op == "allgather":
            return ([p[2] for p in peers],) if full else None
        raise core.HarnessError(op)

    while not all(s == "done" for s in state):
        ready = [(r, a) for r in range(size) for a in [answer(r)] if a is not None]
        if not ready:
            problem = "blocked: " + ", ".join("rank %d %s" % (r, "ended" if state[r] == "done" else "in %s" % posted[r][-1][0]) for r in range(size))
            break
        r, a = rng.choice(ready)
        if last != r:
            switches += 1
        last = r
        order.append(r)
        try:
            _send(downs[r], a[0])
            msg = _recv(ups[r])
        except (EOFError, OSError):
            state[r] = "done"
            results[r] = ("died", None)
            continue
        if msg[0] == "done":
            state[r] = "done"
            results[r] = msg[2]
        else:
            state[r] = "wait"
            posted[r].append(msg)
    for r in range(size):
        os.close(downs[r])
    import signal

    for r, pid in enumerate(pids):
        if state[r] != "done":
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    core.bump("sched_steps", len(order))
    core.bump("sched_switches", switches)
    return results, problem, order
