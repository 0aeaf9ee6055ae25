"""Template process: imports once, then forks one pristine process per scenario.

Protocol: JSON lines on stdin; JSON lines on fd 3 (results)."""
import json
import os
import random
import select
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

OFFLINE = dict(ping="unreach", dns="fail")


def third_party():
    """Modules the package imports that are not its own, found in a child."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        names = []
        try:
            from sim import network

            network.activate(dict(OFFLINE))
            try:
                import exorad  # noqa
            except BaseException:
                pass
            names = [m for m in sys.modules if m.split(".")[0] not in ("exorad", "sim") and not m.startswith("__")]
        finally:
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(names))
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data or "[]")


def prepare(kind):
    import warnings

    warnings.simplefilter("ignore")
    from sim import executor, network, seams

    seams.shim()
    executor.install()
    import numpy as np

    np.set_printoptions(threshold=10, edgeitems=1)
    if kind == "bare":
        import importlib

        for m in third_party():
            try:
                importlib.import_module(m)
            except Exception:
                pass
        return
    network.activate(dict(OFFLINE))
    devnull = os.open(os.devnull, os.O_WRONLY)
    saved = os.dup(1)
    os.dup2(devnull, 1)
    try:
        import exorad  # noqa
    finally:
        sys.stdout.flush()
        os.dup2(saved, 1)
        os.close(saved)
        os.close(devnull)
    import exorad.tasks  # noqa
    import h5py  # noqa
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa

    network.deactivate()
    memoise(os.environ["XR_SCRATCH"])
    import gc

    gc.collect()
    gc.freeze()


def memoise(scratch, warm=True):
    """The 2D convolution of the point spread functions depends on nothing but
    its arguments: computed once, then looked up by content."""
    import hashlib
    import pickle

    import numpy as np
    from scipy import signal as sig

    real = sig.convolve2d
    d = os.path.join(scratch, "conv")
    os.makedirs(d, exist_ok=True)
    memo = {}

    def conv(a, b, *args, **kw):
        x, y = np.asarray(a), np.asarray(b)
        h = hashlib.sha256()
        for z in (x, y):
            h.update(str((z.dtype, z.shape)).encode())
            h.update(np.ascontiguousarray(z).tobytes())
        h.update(repr((args, sorted(kw.items()))).encode())
        k = h.hexdigest()[:24]
        if k in memo:
            return memo[k].copy()
        path = os.path.join(d, k)
        trace = sys.gettrace()
        sys.settrace(None)
        try:
            if os.path.exists(path):
                with open(path, "rb") as f:
                    out = pickle.load(f)
            else:
                out = real(a, b, *args, **kw)
                with open(path + ".%d" % os.getpid(), "wb") as f:
                    pickle.dump(out, f)
                os.rename(path + ".%d" % os.getpid(), path)
        finally:
            sys.settrace(trace)
        memo[k] = out
        return out.copy()

    sig.convolve2d = conv
    if not warm:
        return
    # the usual channels, once for all the processes forked from this one
    pid = os.fork()
    if pid == 0:
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            from sim import ops, worlds

            root = os.path.join(scratch, "warm%d" % os.getpid())
            p = dict(R=120, chs=list(worlds.ALL_CH), frg=[], src="planck", cn=0, ccn=0, nx=None, ft=None, mm=None, ndr=0.0, fwd=1.0, force=True, cfg="in")
            ops.build(worlds.write_payload(p, root, "p.xml"))
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    for k in os.listdir(d):
        if "." not in k:
            with open(os.path.join(d, k), "rb") as f:
                memo[k] = pickle.load(f)


def run_one(req, scratch):
    """In the scenario process."""
    from sim import core, ops, props

    t0 = time.monotonic()
    res = dict(id=req["id"])
    try:
        ctx = ops.Ctx(scratch, req["tag"])
        mod = props.get(req["prop"])
        ops.CLI = bool(req["scenario"].get("cli"))
        r = mod.run(req["scenario"], ctx)
        res.update(status="ok", violations=r.get("violations", []), nontrivial=bool(r.get("nontrivial", True)),
                   sig=str(r.get("sig", "")), note=r.get("note"), stats=ctx.stats, universes=ctx.universes,
                   digest=core.digest([ctx.logs, r.get("violations", []), r.get("sig", "")]))
        if req.get("verbose"):
            res["logs"] = ctx.logs
    except core.Broken as e:
        text = core.norm(str(e), ctx.root, scratch)
        res.update(status="ok", violations=["a run without any fault fails: " + text[:1500]], nontrivial=True, sig="broken", note=None, stats=ctx.stats, universes=ctx.universes,
                   digest=core.digest([ctx.logs, "broken"]))
        if req.get("verbose"):
            res["logs"] = ctx.logs
    except core.HarnessError as e:
        res.update(status="harness", msg=str(e), tb=traceback.format_exc()[-2500:])
    except BaseException as e:  # noqa
        res.update(status="harness", msg="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc()[-2500:])
    res["wall"] = time.monotonic() - t0
    if not req.get("keep"):
        ops.rm_rf(os.path.join(scratch, "w", req["tag"]))
    return res


def main():
    kind, par = sys.argv[1], int(sys.argv[2])
    scratch = os.environ["XR_SCRATCH"]
    out = os.fdopen(3, "w", buffering=1)
    try:
        prepare(kind)
    except BaseException:
        out.write(json.dumps(dict(id="boot", status="harness", msg="the package cannot be imported", tb=traceback.format_exc()[-3000:])) + "\n")
        return
    out.write(json.dumps(dict(id="boot", status="ok")) + "\n")
    running = {}
    queue = []
    eof = False
    buf = b""
    os.set_blocking(0, False)
    while True:
        while queue and len(running) < par:
            req = queue.pop(0)
            path = os.path.join(scratch, "res.%s.%s" % (kind, req["id"]))
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    os.set_blocking(0, True)
                    out_fd = out.fileno()
                    null = os.open(os.devnull, os.O_RDONLY)
                    os.dup2(null, 0)
                    os.close(null)
                    os.close(out_fd)
                    res = run_one(req, scratch)
                    with open(path + ".tmp", "w") as f:
                        json.dump(res, f)
                    os.rename(path + ".tmp", path)
                except BaseException:
                    os.write(2, traceback.format_exc().encode())
                finally:
                    os._exit(0)
            running[pid] = (req, path)
        if eof and not running and not queue:
            return
        while running:
            try:
                pid, st = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                break
            if pid == 0:
                break
            if pid not in running:
                continue
            req, path = running.pop(pid)
            if os.path.exists(path):
                with open(path) as f:
                    line = f.read()
                os.unlink(path)
            else:
                line = json.dumps(dict(id=req["id"], status="harness", msg="scenario process ended with status %d" % st, tb=""))
            out.write(line + "\n")
        r, _, _ = select.select([] if eof else [0], [], [], 0.01 if running else 0.2)
        if r:
            try:
                b = os.read(0, 1 << 16)
            except BlockingIOError:
                continue
            if not b:
                eof = True
            buf += b
            while b"\n" in buf:
                line, buf = buf.split(b"\n", 1)
                if line.strip():
                    queue.append(json.loads(line))


if __name__ == "__main__":
    main()
