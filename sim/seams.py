"""Seams: everything the system meets that is not its own code and inputs.

disk and clock (shim.c), exceptions and interrupts at chosen lines, order of
directory listings.  The executor and the network have their own modules."""
import ctypes
import errno
import os
import random
import sys

from sim import core

OPS = dict(open=1, read=2, write=4, close=8, fsync=16, trunc=32, unlink=64, rename=128, mkdir=256, copy=512, creat=1024)
ACTIONS = dict(err=1, short=2, kill=3, torn=4, sticky=5, quota=6, chunk=7)

_lib = None


def shim():
    global _lib
    if _lib is None:
        path = os.environ.get("XR_SHIM")
        if not path:
            raise core.HarnessError("no shim")
        lib = ctypes.CDLL(path)
        lib.fi_arm.argtypes = [ctypes.c_char_p]
        lib.fi_rule.argtypes = [ctypes.c_uint, ctypes.c_char_p, ctypes.c_long, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        lib.fi_limit.argtypes = [ctypes.c_long]
        for n in ("fi_hits", "fi_seen", "fi_opcount"):
            getattr(lib, n).argtypes = [ctypes.c_int]
            getattr(lib, n).restype = ctypes.c_long
        lib.fi_opseq.restype = ctypes.c_long
        lib.fi_log.restype = ctypes.c_char_p
        lib.ft_enable.argtypes = [ctypes.c_int64, ctypes.c_int64]
        lib.ft_jump.argtypes = [ctypes.c_int64]
        lib.ft_elapsed.restype = ctypes.c_int64
        lib.ft_reads.restype = ctypes.c_long
        lib.ft_jumped.restype = ctypes.c_long
        lib.ft_jumps.argtypes = [ctypes.c_uint64, ctypes.c_long]
        _lib = lib
    return _lib


def shim_log():
    return shim().fi_log().decode("utf-8", "replace") if _lib is not None else ""


def disarm_all():
    sys.settrace(None)
    if _lib is not None:
        _lib.fi_disarm()
        _lib.ft_disable()


# --------------------------------------------------------------------------
# disk
# --------------------------------------------------------------------------
def mask(ops):
    return sum(OPS[o] for o in ops)


def arm_disk(root, rules=(), limit=400000):
    """root: everything below it goes through the simulated disk.
    rules: dicts with ops, sub, nth, count, action, err (name), arg"""
    lib = shim()
    lib.fi_reset()
    lib.fi_limit(limit)
    for r in rules:
        act = r["action"]
        err = core.KILL_CODE if act in ("kill", "torn") else getattr(errno, r.get("err") or "EIO")
        i = lib.fi_rule(mask(r["ops"]), r.get("sub", "").encode(), r.get("nth", 1), r.get("count", 1), ACTIONS[act], err, r.get("arg", 50))
        if i < 0:
            raise core.HarnessError("too many fault rules")
    lib.fi_arm(os.fsencode(root.rstrip("/") + "/"))


def disarm_disk():
    """Stops injecting; returns the hits of every rule."""
    lib = shim()
    lib.fi_disarm()
    out = []
    i = 0
    while True:
        h = lib.fi_hits(i)
        if h < 0:
            break
        out.append(h)
        i += 1
    return out


def op_counts():
    lib = shim()
    return {name: lib.fi_opcount(bit.bit_length() - 1) for name, bit in OPS.items()}


# --------------------------------------------------------------------------
# lines
# --------------------------------------------------------------------------
class SimFault(Exception):
    """An error no code expects."""


EXC = dict(
    SimFault=SimFault, RuntimeError=RuntimeError, MemoryError=MemoryError, ArithmeticError=ArithmeticError,
    ValueError=ValueError, KeyError=KeyError, TypeError=TypeError, OSError=OSError, AttributeError=AttributeError,
    IndexError=IndexError, KeyboardInterrupt=KeyboardInterrupt, SystemExit=SystemExit,
)


class Lines:
    """Numbers the lines the package executes (in the scope) and raises at the
    chosen one.

    The k-th *distinct* line is chosen by index in order of first execution,
    then its `nth` execution: an index says nothing about how the code is
    written, and exists whatever the code is."""

    on_fire = None  # called just before raising
    home = False  # only in the process that made this object

    def __init__(self, at=None, exc="SimFault", nth=1, on=True):
        self.prefix = os.path.join(core.REPO, "exorad") + os.sep
        self.order = {}
        self.count = {}
        self.at, self.exc, self.nth = at, exc, nth
        self.on = on
        self.fired = None
        self.pid = os.getpid()

    def start(self):
        sys.settrace(self._global)

    def stop(self):
        sys.settrace(None)

    def _global(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(self.prefix) and frame.f_code.co_name not in ("__del__",):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" and self.on:
            key = (frame.f_code.co_filename, frame.f_lineno)
            i = self.order.get(key)
            if i is None:
                i = self.order[key] = len(self.order)
            c = self.count[key] = self.count.get(key, 0) + 1
            if self.at is not None and self.fired is None and i == self.at and c == self.nth and not (self.home and os.getpid() != self.pid):
                self.fired = "%s:%d" % (os.path.relpath(key[0], core.REPO), key[1])
                core.note("fired_line", self.fired)
                core.bump("fault:line_" + self.exc)
                if self.on_fire is not None:
                    self.on_fire()
                e = EXC[self.exc]
                raise e("injected") if e is not SystemExit else SystemExit(3)
        return self._local

    def found(self):
        """Distinct lines and how often each was executed, in order."""
        return [self.count[k] for k in sorted(self.order, key=self.order.get)]


class LibCalls:
    """Numbers the library functions that the package calls and makes the chosen
    one fail (a failing allocation, a library error).  Calls that release
    something never fail."""

    RELEASE = ("close", "exit", "clear", "clf", "cla", "del", "shutdown", "free", "flush", "finalize", "cancel", "release", "handle")

    def __init__(self, at=None, exc="MemoryError", nth=1):
        self.prefix = os.path.join(core.REPO, "exorad") + os.sep
        self.order = {}
        self.count = {}
        self.at, self.exc, self.nth = at, exc, nth
        self.fired = None
        self.pid = os.getpid()

    def start(self):
        sys.settrace(self._global)

    def stop(self):
        sys.settrace(None)

    def _global(self, frame, event, arg):
        code = frame.f_code
        fn = code.co_filename
        if event != "call" or fn.startswith(self.prefix) or frame.f_back is None:
            return None
        back = frame.f_back.f_code
        if not back.co_filename.startswith(self.prefix) or fn.startswith(HERE) or "logging" in fn or fn.startswith("<") or any(x in code.co_name.lower() for x in self.RELEASE) or any(x in back.co_name.lower() for x in self.RELEASE):
            return None
        key = (back.co_name, code.co_name)
        i = self.order.get(key)
        if i is None:
            i = self.order[key] = len(self.order)
        c = self.count[key] = self.count.get(key, 0) + 1
        if self.at is not None and self.fired is None and i == self.at and c == self.nth and os.getpid() == self.pid:
            self.fired = "%s -> %s" % key
            core.note("fired_line", self.fired)
            core.bump("fault:library_" + self.exc)
            raise EXC[self.exc]("injected")
        return None

    def found(self):
        return [self.count[k] for k in sorted(self.order, key=self.order.get)]


HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep


class H5Calls:
    """The storage errors that the container library reports from a call of its
    own: the chosen call (numbered in order) raises instead of storing."""

    def __init__(self, at=None, exc="OSError", count=1):
        self.at, self.exc, self.count = at, exc, count
        self.n = 0
        self.hits = 0
        self.deep = 0
        self.ends = []

    def start(self):
        import h5py
        from h5py._hl.attrs import AttributeManager

        for cls, names in ((h5py.Group, ("create_dataset", "create_group", "require_group", "require_dataset", "__setitem__")), (h5py.Dataset, ("__setitem__", "write_direct", "flush")),
                           (AttributeManager, ("__setitem__", "create", "modify")), (h5py.File, ("flush", "close"))):
            for name in names:
                if name in cls.__dict__:
                    setattr(cls, name, self._wrap(cls.__name__, name, cls.__dict__[name]))

    def _wrap(self, cls, name, orig):
        me = self

        def call(obj, *a, **k):
            if me.deep or (name == "close" and not obj):
                return orig(obj, *a, **k)
            if name in ("flush", "close") and getattr(obj, "mode", "r+") == "r":
                return orig(obj, *a, **k)
            i = me.n
            me.n += 1
            me.deep += 1
            if name in ("flush", "close"):
                me.ends.append(i)
            try:
                if me.at is not None and me.at <= i and me.hits < me.count:
                    me.hits += 1
                    core.bump("fault:library_%s" % name.strip("_"))
                    core.note("fired_line", "%s.%s" % (cls, name))
                    if name == "close":
                        orig(obj, *a, **k)
                    raise EXC[me.exc]("injected: no space left on device")
                return orig(obj, *a, **k)
            finally:
                me.deep -= 1

        return call


def in_observation(lines, name):
    """Turns `lines` on only while the target called `name` is observed."""
    from exorad.tasks import task as task_module

    orig = task_module.Task.__call__
    lines.on = False

    def call(self, **kwargs):
        hit = type(self).__name__ == "ObserveTarget" and str(getattr(kwargs.get("target"), "name", None)) == name
        if not hit:
            return orig(self, **kwargs)
        lines.on = True
        core.bump("scope_entered")
        old = sys.gettrace()
        lines.start()
        try:
            return orig(self, **kwargs)
        finally:
            sys.settrace(old)
            lines.on = False

    task_module.Task.__call__ = call


def watch_observations():
    """Names of the targets whose observation starts, in order."""
    from exorad.tasks import task as task_module

    orig = task_module.Task.__call__
    seen = []

    def call(self, **kwargs):
        if type(self).__name__ == "ObserveTarget":
            seen.append(str(getattr(kwargs.get("target"), "name", None)))
        return orig(self, **kwargs)

    task_module.Task.__call__ = call
    return seen


# --------------------------------------------------------------------------
# directory listings
# --------------------------------------------------------------------------
def shuffle_listings(seed):
    rng = random.Random(seed)
    real_listdir, real_scandir = os.listdir, os.scandir

    def listdir(path="."):
        out = sorted(real_listdir(path), key=lambda x: os.fsencode(x))
        rng.shuffle(out)
        core.bump("fault:listing")
        return out

    class Scan:
        def __init__(self, path):
            with real_scandir(path) as it:
                self.items = sorted(it, key=lambda e: os.fsencode(e.name))
            rng.shuffle(self.items)
            core.bump("fault:listing")
            self.it = iter(self.items)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def close(self):
            self.it = iter(())

    os.listdir = listdir
    os.scandir = lambda path=".": Scan(path)
    import glob
    import pathlib

    for mod in (glob, pathlib):
        for name in ("listdir", "scandir"):
            if hasattr(mod, name) and getattr(mod, name) in (real_listdir, real_scandir):
                setattr(mod, name, getattr(os, name))


# --------------------------------------------------------------------------
# figures
# --------------------------------------------------------------------------
def fail_figure(name, exc=OSError):
    """Writing the figure of the target called `name` fails."""
    from matplotlib.figure import Figure

    orig = Figure.savefig

    def savefig(self, fname, *a, **k):
        if os.path.basename(str(fname)).startswith(name + "."):
            core.bump("fault:figure")
            raise exc(errno.ENOSPC, "No space left on device")
        return orig(self, fname, *a, **k)

    Figure.savefig = savefig


# --------------------------------------------------------------------------
# fault plans against a dry run
# --------------------------------------------------------------------------
FAR = 10**15


def dry_disk(root, rules):
    """Arms the disk with nothing to fire, to count the chances of each rule."""
    # reading in pieces is not a fault, and more pieces are more chances
    arm_disk(root, [r if r["action"] == "chunk" else dict(r, nth=FAR, arg=FAR if r["action"] == "quota" else r.get("arg", 50)) for r in rules])


def seen_disk(n):
    lib = shim()
    return [lib.fi_seen(i) for i in range(n)]


def resolve_disk(rules, seen, size=0):
    """Rules with a position given as a fraction become rules with a number."""
    out = []
    for r, n in zip(rules, seen):
        r = dict(r)
        f = r.pop("frac", 0.0)
        if r["action"] == "chunk":
            out.append(r)
        elif r["action"] == "quota":
            r["arg"] = int(f * size)
            out.append(r)
        elif n > 0:
            r["nth"] = 1 + int(f * n)
            out.append(r)
    return out


def gen_disk_rule(rng, sub=".h5", writes_only=False):
    """A fault of the disk: position as a fraction of the chances of the run."""
    op = rng.choice(["write"] * 8 + ([] if writes_only else ["close", "close", "creat", "creat", "trunc", "read", "read", "unlink", "open", "mkdir", "copy"]))
    action = rng.choice(["err", "err", "err", "sticky", "quota", "short"] if op in ("write", "copy") else ["err", "err", "sticky", "short"] if op == "read" else ["err", "err", "sticky"])
    err = rng.choice(["EIO", "ENOSPC", "EDQUOT", "EINTR"] if op == "write" else ["EIO", "EINTR"] if op == "read" else ["EIO", "ENOSPC"] if op in ("close", "copy", "trunc") else ["EACCES", "EIO", "EMFILE"])
    if action == "sticky" and err == "EINTR":
        err = "EIO"
    if action == "quota":
        err = rng.choice(["ENOSPC", "EDQUOT"])
    r = dict(ops=[op], sub=sub if op not in ("mkdir", "copy") else "", action=action, err=err, count=rng.choice([1, 1, 1, 2, 5]), frac=round(rng.random(), 5))
    if action == "short":
        r["arg"] = rng.choice([1, 30, 90])
        r["count"] = rng.choice([1, 10, 100000])
    return r


def with_disk(root, rules, fn, dry=False):
    """Runs fn with the disk armed; the value of fn and what the rules met."""
    if dry:
        dry_disk(root, rules)
    else:
        arm_disk(root, rules)
    try:
        return fn(), seen_disk(len(rules))
    finally:
        for r, h in zip(rules, disarm_disk()):
            if h and not dry:
                core.bump("fault:disk_%s_%s" % ("_".join(r["ops"]), r["action"] if r["action"] != "err" else r["err"]), h)
