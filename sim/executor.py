"""Simulated worker pools.

ProcessPoolExecutor workers are real processes (forked when the pool starts, or
taken from processes forked before the run: 'spawn'), ThreadPoolExecutor workers
are real threads.  Exactly one of the parent and the workers runs at a time: a
worker stops at every yield point (a logged message, a task call, a file open)
until the seeded scheduler grants it another step.  The scheduler runs whenever
the parent waits for a result.  Time is simulated: each step takes some, and a
wait with a timeout ends when the simulated time says so."""
import concurrent.futures as cf
import concurrent.futures.process as cfp
import concurrent.futures.thread as cft
import itertools
import logging
import os
import pickle
import random
import struct
import threading
import traceback
import weakref
from functools import partial

from sim import core

REAL = dict(ProcessPoolExecutor=cfp.ProcessPoolExecutor, ThreadPoolExecutor=cft.ThreadPoolExecutor, as_completed=cf.as_completed, wait=cf.wait)

S = None  # the active simulation


class Sim:
    def __init__(self, plan):
        self.plan = plan
        self.rng = random.Random(plan["seed"])
        self.now = 0.0
        self.steps = 0
        self.trace = []
        self.pool = []  # processes forked before the run
        self.pools = []
        self.tls = threading.local()
        self.parent_interrupted = False

    def prefork(self, n):
        for _ in range(n):
            self.pool.append(ProcWorker(self))


def activate(plan):
    """plan: seed, start ('fork'|'spawn'), stall [(task, step, seconds)], die [(task, step)],
    interrupt_parent (scheduler step)"""
    global S
    S = Sim(plan)
    _hook_yields()
    if plan.get("start") == "spawn":
        S.prefork(plan.get("prefork", 6))
    return S


def finish():
    """Ends workers that were never used; statistics."""
    if S is None:
        return
    for w in S.pool:
        w.kill()
    for ref in S.pools:
        p = ref()
        for w in p.workers if p is not None else ():
            w.kill()
    core.note("sched_steps", S.steps)
    core.note("sched_trace", core.digest(S.trace))
    core.note("sched_switches", sum(1 for a, b in zip(S.trace, S.trace[1:]) if a != b))
    core.note("sim_seconds", round(S.now, 3))


# --------------------------------------------------------------------------
# yield points
# --------------------------------------------------------------------------
_me = threading.local()


def yield_point(what):
    w = getattr(_me, "worker", None)
    if w is not None:
        w.pause(what)


_hooked = False


def _hook_yields():
    global _hooked
    if _hooked:
        return
    _hooked = True
    orig = logging.Logger.handle

    def handle(self, record):
        if self.name.startswith("exorad"):
            yield_point("log")
        return orig(self, record)

    logging.Logger.handle = handle
    from exorad.tasks import task as task_module

    tcall = task_module.Task.__call__

    def call(self, **kwargs):
        yield_point("task")
        return tcall(self, **kwargs)

    task_module.Task.__call__ = call
    import builtins

    bopen = builtins.open

    def _open(*a, **k):
        yield_point("open")
        return bopen(*a, **k)

    builtins.open = _open


# --------------------------------------------------------------------------
# workers
# --------------------------------------------------------------------------
def _send(fd, obj_bytes):
    data = struct.pack("<Q", len(obj_bytes)) + obj_bytes
    view = memoryview(data)
    while view:
        view = view[os.write(fd, view):]


def _recv(fd):
    def exactly(n):
        out = b""
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                raise EOFError
            out += b
        return out

    (n,) = struct.unpack("<Q", exactly(8))
    return exactly(n)


class ProcWorker:
    """A worker process, run one step at a time."""

    def __init__(self, sim):
        pr, cw = os.pipe()
        cr, pw = os.pipe()
        self.r, self.w = pr, pw
        self.task = None
        self.until = 0.0
        self.dead = False
        self.initializer = None
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(pr)
                os.close(pw)
                self._child(cr, cw)
            except BaseException:
                os.write(2, traceback.format_exc().encode())
            finally:
                os._exit(0)
        os.close(cr)
        os.close(cw)

    # child side
    def _child(self, r, w):
        global S
        _me.worker = self
        self.cr, self.cw = r, w
        self.die_at = None
        self.step_no = 0
        self.running = False
        if S is not None:
            S.pool = []
            S.pools = []
        S = None  # a pool used inside a worker is a real one
        while True:
            try:
                kind, payload, die_at = pickle.loads(_recv(r))
            except EOFError:
                os._exit(0)
            except BaseException as e:
                _send(w, pickle.dumps(("exc", _exc_bytes(e))))
                continue
            if kind == "init":
                fn, args = payload
                fn(*args)
                continue
            self.die_at, self.step_no = die_at, 0
            self.running = True
            try:
                fn, args, kwargs = pickle.loads(payload)
                res = fn(*args, **kwargs)
                msg = pickle.dumps(("done", pickle.dumps(res)))
            except BaseException as e:
                msg = pickle.dumps(("exc", _exc_bytes(e)))
            self.running = False
            extra = pickle.dumps(dict(core._EXTRA))
            core._EXTRA.clear()
            _send(w, pickle.dumps(("stats", extra)))
            _send(w, msg)

    def pause(self, what):
        if not self.running:
            return
        self.step_no += 1
        if self.die_at is not None and self.step_no >= self.die_at:
            os._exit(9)
        self.running = False
        _send(self.cw, pickle.dumps(("yield", what)))
        _recv(self.cr)
        self.running = True

    # parent side
    def start(self, blob, die_at):
        self.started = False
        self.blob = pickle.dumps(("task", blob, die_at))

    def step(self):
        """One step: ('yield', what) | ('done', bytes) | ('exc', bytes) | ('dead',)"""
        try:
            if not self.started:
                self.started = True
                _send(self.w, self.blob)
            else:
                _send(self.w, b"go")
            while True:
                msg = pickle.loads(_recv(self.r))
                if msg[0] != "stats":
                    return msg
                for k, v in pickle.loads(msg[1]).items():
                    if isinstance(v, int):
                        core.bump(k, v)
                    else:
                        core.note(k, v)
        except (EOFError, BrokenPipeError):
            self.dead = True
            return ("dead",)

    def kill(self):
        if self.pid is None:
            return
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        import signal

        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
        self.pid = None


def _exc_bytes(e):
    tb = traceback.format_exc()
    try:
        b = pickle.dumps(e)
        pickle.loads(b)
        return b
    except BaseException:
        return pickle.dumps(RuntimeError("%s: %s\n%s" % (type(e).__name__, e, tb)))


class ThreadWorker:
    def __init__(self, sim):
        self.until = 0.0
        self.task = None
        self.dead = False
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.msg = None
        self.thread = None
        self.pid = None

    def start(self, call, die_at):
        self.call = call
        self.thread = None

    def _run(self):
        _me.worker = self
        self.go.acquire()
        try:
            fn, args, kwargs = self.call
            self.msg = ("done", fn(*args, **kwargs))
        except BaseException as e:
            self.msg = ("exc", e)
        _me.worker = None
        self.back.release()

    def pause(self, what):
        self.msg = ("yield", what)
        self.back.release()
        self.go.acquire()

    def step(self):
        if self.thread is None:
            self.thread = threading.Thread(target=self._run, daemon=True)
            self.thread.start()
        self.go.release()
        self.back.acquire()
        return self.msg

    def kill(self):
        pass


# --------------------------------------------------------------------------
# pools
# --------------------------------------------------------------------------
class SimFuture(cf.Future):
    def __init__(self, pool):
        super().__init__()
        self.pool = pool

    def result(self, timeout=None):
        self.pool.drive(lambda: self.done(), timeout)
        return super().result(0)

    def exception(self, timeout=None):
        self.pool.drive(lambda: self.done(), timeout)
        return super().exception(0)


class BasePool(cf.Executor):
    threads = False

    def __init__(self, max_workers=None, *args, initializer=None, initargs=(), **kwargs):
        self.sim = S
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.max_workers = max_workers or 4
        self.initializer, self.initargs = initializer, initargs
        self.workers = []
        self.queue = []
        self.ntask = 0
        self.broken = False
        self.closed = False
        self.sim.pools.append(weakref.ref(self))

    def _new_worker(self):
        if self.threads:
            return ThreadWorker(self.sim)
        if self.sim.plan.get("start") == "spawn" and self.sim.pool:
            w = self.sim.pool.pop(0)
        else:
            w = ProcWorker(self.sim)
        if self.initializer is not None:
            _send(w.w, pickle.dumps(("init", (self.initializer, self.initargs), None)))
        return w

    def submit(self, fn, /, *args, **kwargs):
        if self.broken:
            raise cfp.BrokenProcessPool("the pool is broken")
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        if not self.workers:
            self.workers = [self._new_worker() for _ in range(self.max_workers)]
        f = SimFuture(self)
        self.queue.append([f, (fn, args, kwargs), None, self.ntask])
        self.ntask += 1
        # the arguments may be pickled now or when a worker takes them
        if not self.threads and self.sim.rng.random() < 0.5:
            self._pickle(self.queue[-1])
        return f

    def _pickle(self, item):
        if item[2] is None:
            try:
                item[2] = pickle.dumps(item[1])
            except BaseException as e:
                item[2] = e

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if self.threads or chunksize == 1:
            return super().map(fn, *iterables, timeout=timeout)
        results = super().map(partial(cfp._process_chunk, fn), _chunks(*iterables, chunksize=chunksize), timeout=timeout)
        return cfp._chain_from_iterable_of_lists(results)

    def __del__(self):
        # as the real one: nobody can use it any more
        try:
            if not self.closed:
                self.shutdown()
        except BaseException:
            pass

    # the scheduler -------------------------------------------------------
    def drive(self, done, timeout=None):
        sim = self.sim
        deadline = None if timeout is None else sim.now + timeout
        while not done():
            if deadline is not None and sim.now >= deadline:
                raise cf.TimeoutError()
            if not self._one_step(deadline):
                if deadline is not None:
                    sim.now = deadline
                    raise cf.TimeoutError()
                raise core.SimHang("waiting for workers that will never answer")

    def _one_step(self, deadline):
        sim, rng, plan = self.sim, self.sim.rng, self.sim.plan
        if plan.get("interrupt_parent") is not None and sim.steps >= plan["interrupt_parent"] and not sim.parent_interrupted:
            sim.parent_interrupted = True
            core.bump("fault:parent_interrupt")
            raise KeyboardInterrupt()
        # idle workers may take a waiting task
        idle = [w for w in self.workers if w.task is None and not w.dead]
        while idle and self.queue and (rng.random() < 0.7 or not any(w.task for w in self.workers)):
            item = self.queue.pop(0)
            f, call, blob, n = item
            if not f.set_running_or_notify_cancel():
                continue
            w = idle.pop(rng.randrange(len(idle)))
            die = next((d[1] for d in plan.get("die", ()) if d[0] == n), None)
            if self.threads:
                w.start(call, None)
            else:
                self._pickle(item)
                if isinstance(item[2], BaseException):
                    f.set_exception(item[2])
                    idle.append(w)
                    continue
                w.start(item[2], die)
            w.task, w.n, w.k = f, n, 0
            w.stalls = [list(s) for s in plan.get("stall", ()) if s[0] == n]
        busy = [w for w in self.workers if w.task is not None]
        if not busy:
            return bool(self.queue)
        ready = [w for w in busy if w.until <= sim.now]
        if not ready:
            nxt = min(w.until for w in busy)
            if deadline is not None and nxt > deadline:
                sim.now = deadline
                return True
            sim.now = nxt
            return True
        w = ready[rng.randrange(len(ready))]
        # run it for a while: short bursts and long ones
        for _ in range(rng.choice((1, 1, 2, 5, 20, 100))):
            sim.steps += 1
            sim.now += 0.001 * rng.randrange(1, 20)
            w.k += 1
            sim.trace.append(w.n)
            msg = w.step()
            if msg[0] == "yield":
                for s in w.stalls:
                    if s[1] == w.k:
                        w.until = sim.now + s[2]
                        core.bump("fault:stall")
                if w.until > sim.now:
                    break
                continue
            f, w.task = w.task, None
            if msg[0] == "dead":
                core.bump("fault:worker_death")
                self._break(f)
            elif msg[0] == "done":
                f.set_result(msg[1] if self.threads else pickle.loads(msg[1]))
            else:
                f.set_exception(msg[1] if self.threads else pickle.loads(msg[1]))
            break
        return True

    def _break(self, first):
        self.broken = True
        err = cfp.BrokenProcessPool("A process in the process pool was terminated abruptly while the future was running or pending.")
        first.set_exception(err)
        for item in self.queue:
            if item[0].set_running_or_notify_cancel():
                item[0].set_exception(err)
        self.queue = []
        for w in self.workers:
            if w.task is not None:
                w.task.set_exception(err)
                w.task = None
            w.kill()
        self.workers = []

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.closed = True
        if cancel_futures:
            for item in self.queue:
                item[0].cancel()
        # the workers finish what is queued, whether someone waits or not
        while self.queue or any(w.task is not None for w in self.workers):
            if not self._one_step(None):
                break
        for w in self.workers:
            w.kill()
        self.workers = []


def _chunks(*iterables, chunksize):
    it = zip(*iterables)
    while True:
        chunk = tuple(itertools.islice(it, chunksize))
        if not chunk:
            return
        yield chunk


class SimProcessPool(BasePool):
    pass


class SimThreadPool(BasePool):
    threads = True

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        super().__init__(max_workers)


def _switch(real, simulated):
    class Pool(real):
        def __new__(cls, *a, **k):
            if S is not None:
                return simulated(*a, **k)
            return real(*a, **k)

    Pool.__name__ = Pool.__qualname__ = real.__name__
    return Pool


def _as_completed(fs, timeout=None):
    if S is None or not all(isinstance(f, SimFuture) for f in fs):
        yield from REAL["as_completed"](fs, timeout)
        return
    left = list(dict.fromkeys(fs))
    while left:
        pools = {id(f.pool): f.pool for f in left}
        next(iter(pools.values())).drive(lambda: any(f.done() for f in left), timeout)
        done = [f for f in left if f.done()]
        S.rng.shuffle(done)
        for f in done:
            left.remove(f)
            yield f


def _wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = set(fs)
    if S is None or not all(isinstance(f, SimFuture) for f in fs):
        return REAL["wait"](fs, timeout, return_when)

    def enough():
        if return_when == cf.FIRST_COMPLETED:
            return any(f.done() for f in fs)
        if return_when == cf.FIRST_EXCEPTION and any(f.done() and not f.cancelled() and cf.Future.exception(f, 0) for f in fs):
            return True
        return all(f.done() for f in fs)

    if fs:
        try:
            next(iter(fs)).pool.drive(enough, timeout)
        except cf.TimeoutError:
            pass
    done = {f for f in fs if f.done()}
    return cf._base.DoneAndNotDoneFutures(done, fs - done)


def install():
    """Before the package is imported: the pools become switchable."""
    cf.ProcessPoolExecutor = cfp.ProcessPoolExecutor = _switch(REAL["ProcessPoolExecutor"], SimProcessPool)
    cf.ThreadPoolExecutor = cft.ThreadPoolExecutor = _switch(REAL["ThreadPoolExecutor"], SimThreadPool)
    cf.as_completed = _as_completed
    cf.wait = _wait
