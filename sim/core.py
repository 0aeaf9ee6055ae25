"""Core of the simulator: universes (forked pristine processes), canonical
results, comparison, reading of output files."""
import hashlib
import os
import pickle
import re
import select
import signal
import sys
import time
import traceback

import numpy as np

KILL_CODE = 77
LIMIT_CODE = 78
REPO = os.environ.get("XR_REPO", "/repo")


class HarnessError(Exception):
    """The simulator itself failed: never a verdict."""


class Broken(Exception):
    """The package fails where nothing was injected: a verdict."""


class SimHang(BaseException):
    """The system waits for something that can never happen."""


# --------------------------------------------------------------------------
# universes
# --------------------------------------------------------------------------
def norm(text, *roots):
    """Console text without the names of the scratch directories, pids and
    addresses."""
    for i, r in enumerate(roots):
        text = text.replace(r, "<W%d>" % i)
    text = re.sub(r"0x[0-9a-f]{6,}", "0x..", text)
    text = re.sub(r"/tmp/xr\.[0-9a-z]+/[\w/]*?(?=/in|/out|/u)", "<W>", text)
    return text


class Outcome(dict):
    """status: ok | exc | killed | crash | hang; value, exc, msg, console, log, stats"""

    __getattr__ = dict.get

    @property
    def ok(self):
        return self["status"] == "ok"


_EXTRA = {}


def note(key, value):
    """Statistics of the running universe, sent home with its outcome."""
    _EXTRA[key] = value


def bump(key, n=1):
    _EXTRA[key] = _EXTRA.get(key, 0) + n


def universe(fn, con_path, deadline=120.0):
    """Runs fn() in a process forked from this pristine one."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.setsid()
            os.close(r)
            _EXTRA.clear()
            fd = os.open(con_path, os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o644)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            os.close(fd)
            res = {}
            try:
                res["value"] = fn()
                res["status"] = "ok"
            except SimHang as e:
                res.update(status="hang", msg=str(e))
            except BaseException as e:  # noqa: the outcome of the system is data here
                sys.settrace(None)
                res.update(
                    status="exc",
                    exc=type(e).__name__,
                    mro=[c.__name__ for c in type(e).__mro__],
                    msg=str(e)[:500],
                    tb=traceback.format_exc()[-3000:],
                )
            sys.settrace(None)
            from sim import seams

            seams.disarm_all()
            res["log"] = seams.shim_log()
            res["stats"] = dict(_EXTRA)
            try:
                blob = pickle.dumps(res)
            except Exception as e:
                blob = pickle.dumps({"status": "harness", "msg": "unpicklable: %r" % e})
            view = memoryview(blob)
            while view:
                n = os.write(w, view)
                view = view[n:]
            sys.stdout.flush()
            sys.stderr.flush()
            code = 0
        except BaseException:
            try:
                os.write(2, traceback.format_exc().encode())
            except Exception:
                pass
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + deadline
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], min(left, 1.0))
        if ready:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
        else:
            # the universe may be gone while a forked worker keeps the pipe open
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                while True:
                    ready, _, _ = select.select([r], [], [], 0.5)
                    if not ready:
                        break
                    b = os.read(r, 1 << 20)
                    if not b:
                        break
                    chunks.append(b)
                pid_status = st
                os.close(r)
                return _finish(chunks, pid_status, con_path, False)
    try:
        os.killpg(pid, signal.SIGKILL) if timed_out else None
    except ProcessLookupError:
        pass
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    os.close(r)
    return _finish(chunks, st, con_path, timed_out)


def _finish(chunks, st, con_path, timed_out):
    with open(con_path, errors="replace") as f:
        console = f.read()
    if timed_out:
        return Outcome(status="hang", msg="no end in real time", console=console, log="", stats={})
    if os.WIFSIGNALED(st):
        return Outcome(status="crash", sig=os.WTERMSIG(st), console=console, log="", stats={})
    code = os.WEXITSTATUS(st)
    if code == KILL_CODE:
        return Outcome(status="killed", console=console, log="", stats={})
    if code == LIMIT_CODE:
        return Outcome(status="hang", msg="no end: too many disk operations", console=console, log="", stats={})
    if code != 0 or not chunks:
        return Outcome(status="crash", sig=-code, console=console, log="", stats={})
    res = Outcome(pickle.loads(b"".join(chunks)))
    if res["status"] == "harness":
        raise HarnessError(res["msg"])
    res["console"] = console
    return res


# --------------------------------------------------------------------------
# canonical values and comparison
# --------------------------------------------------------------------------
def _unit(x):
    """The same unit under one name (um and micron are one)."""
    return str(x).replace("micron", "um")


def canon(obj, depth=0):
    """Plain picklable structure of arrays, strings and numbers."""
    import astropy.units as u
    from astropy.table import Table

    if depth > 12:
        return "<deep>"
    if obj is None or isinstance(obj, (bool, int, float, complex)):
        return obj
    if isinstance(obj, (str, np.str_)):
        return str(obj)
    if isinstance(obj, bytes):
        return obj.decode("utf-8", "replace")
    if isinstance(obj, u.UnitBase):
        return {"#unit": _unit(obj)}
    if isinstance(obj, u.Quantity):
        return {"#q": np.array(obj.value), "#u": _unit(obj.unit)}
    if isinstance(obj, Table):
        return {
            "#table": {c: canon_col(obj[c]) for c in obj.colnames},
            "#meta": {str(k): canon(v, depth + 1) for k, v in obj.meta.items()},
        }
    if isinstance(obj, np.ma.MaskedArray):
        return {"#ma": np.array(obj.filled(0) if obj.dtype.kind in "fiub" else obj.filled("")), "#mask": np.ma.getmaskarray(obj).copy()}
    if isinstance(obj, np.ndarray):
        if obj.dtype.kind == "S":
            return np.char.decode(obj, "utf-8", "replace")
        if obj.dtype.kind == "O":
            return [canon(x, depth + 1) for x in obj.ravel()]
        return np.array(obj)
    if isinstance(obj, np.generic):
        return obj.item()
    if isinstance(obj, dict):
        return {str(k): canon(v, depth + 1) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [canon(x, depth + 1) for x in obj]
    if hasattr(obj, "__dict__"):
        return {
            k: canon(v, depth + 1)
            for k, v in obj.__dict__.items()
            if not k.startswith("_") and not callable(v)
        }
    return repr(type(obj))


def canon_col(col):
    unit = getattr(col, "unit", None)
    data = np.asarray(col.value if hasattr(col, "value") and unit is not None else col)
    if data.dtype.kind == "S":
        data = np.char.decode(data, "utf-8", "replace")
    return {"#c": np.array(data), "#u": "" if unit is None else _unit(unit)}


def diff(a, b, rtol=1e-9, path="", ignore=()):
    """First difference between two canonical structures, or None."""
    if path and path.split("/")[-1] in ignore:
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        ka = [k for k in a if k not in ignore]
        kb = [k for k in b if k not in ignore]
        if set(ka) != set(kb):
            return "%s: keys differ: only first %s, only second %s" % (
                path or "/", sorted(set(ka) - set(kb))[:4], sorted(set(kb) - set(ka))[:4])
        for k in ka:
            d = diff(a[k], b[k], rtol, path + "/" + k, ignore)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: lengths %d and %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, rtol, "%s[%d]" % (path, i), ignore)
            if d:
                return d
        return None
    if path.endswith("starName"):
        # a name read as a number or not, by the other names of the list
        a, b = str(a), str(b)
    num = (bool, int, float, complex, np.ndarray, np.generic)
    if isinstance(a, num) and isinstance(b, num):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return "%s: shapes %s and %s" % (path, x.shape, y.shape)
        if x.dtype.names or y.dtype.names:
            if x.dtype.names != y.dtype.names:
                return "%s: fields differ" % path
            for n in x.dtype.names:
                d = diff(_plain(x[n]), _plain(y[n]), rtol, path + "." + n, ignore)
                if d:
                    return d
            return None
        if x.dtype.kind in "fciub" and y.dtype.kind in "fciub":
            x2, y2 = x.astype(complex), y.astype(complex)
            with np.errstate(all="ignore"):
                same = np.isclose(x2, y2, rtol=rtol, atol=0.0, equal_nan=True) | (x == y)
            if not np.all(same):
                i = int(np.argmin(same.ravel()))
                return "%s: %r and %r at %d" % (path, x.ravel()[i], y.ravel()[i], i)
            return None
        x, y = _plain(x), _plain(y)
        if not np.array_equal(x, y):
            i = int(np.argmin((x == y).ravel()))
            return "%s: %r and %r at %d" % (path, x.ravel()[i], y.ravel()[i], i)
        return None
    if a != b or type(a) is not type(b):
        return "%s: %.80r and %.80r" % (path, a, b)
    return None


def _plain(x):
    x = np.asarray(x)
    if x.dtype.kind == "S":
        return np.char.decode(x, "utf-8", "replace")
    if x.dtype.kind == "O":
        return np.array([v.decode() if isinstance(v, bytes) else str(v) for v in x.ravel()])
    return x


def digest(obj):
    h = hashlib.sha256()

    def feed(o):
        if isinstance(o, dict):
            for k in sorted(o, key=str):
                h.update(str(k).encode())
                feed(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b"[")
            for x in o:
                feed(x)
        elif isinstance(o, np.ndarray):
            h.update(str(o.dtype).encode() + str(o.shape).encode())
            h.update(o.tobytes() if o.dtype.kind != "O" else repr(o.tolist()).encode())
        else:
            h.update(repr(o).encode())

    feed(obj)
    return h.hexdigest()[:16]


# --------------------------------------------------------------------------
# output files
# --------------------------------------------------------------------------
def dump_h5(path):
    """Whole content of an HDF5 file, read with h5py alone."""
    import h5py
    from astropy.table import meta

    def walk(g):
        out = {}
        for k in g.keys():
            item = g[k]
            if isinstance(item, h5py.Group):
                out[k] = walk(item)
            else:
                v = item[()]
                if isinstance(v, bytes):
                    v = v.decode("utf-8", "replace")
                elif isinstance(v, np.ndarray) and v.dtype.kind == "O":
                    v = np.array([x.decode("utf-8", "replace") if isinstance(x, bytes) else str(x) for x in v.ravel()])
                elif isinstance(v, np.generic):
                    v = v.item()
                if k.endswith("__table_column_meta__"):
                    # a YAML text: which of its parts refer to each other says nothing
                    try:
                        v = canon(meta.get_header_from_yaml([str(x) for x in _plain(v)]))
                    except Exception:
                        pass
                out[k] = v
        return out

    with h5py.File(path, "r") as f:
        return walk(f)


def read_tables(path):
    """Target tables of an output file, as documented for users."""
    import h5py
    from astropy.io.misc.hdf5 import read_table_hdf5

    out = {}
    with h5py.File(path, "r") as f:
        if "targets" not in f:
            return out
        for name in f["targets"]:
            try:
                out[name] = canon(read_table_hdf5(f["targets"][name]["table"], path="table"))
            except Exception as e:  # a saving that did not complete
                out[name] = "unreadable: %s: %s" % (type(e).__name__, e)
    return out


def sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def tree(root):
    """path -> (size, sha) of every file under root."""
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = sha(p)
    return out
