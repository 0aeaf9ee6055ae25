"""What a user does, run inside a universe; and the golden results."""
import os
import pickle
import random

from sim import core, seams, worlds

CTX = None


class Ctx:
    """Everything a scenario needs: its scratch directory, the golden cache."""

    def __init__(self, scratch, tag):
        self.scratch = scratch
        self.root = os.path.join(scratch, "w", tag)
        os.makedirs(self.root)
        self.golden_dir = os.path.join(scratch, "golden")
        os.makedirs(self.golden_dir, exist_ok=True)
        self.n = 0
        self.stats = {}
        self.universes = 0
        self.logs = []

    def dir(self, name):
        d = os.path.join(self.root, name)
        os.makedirs(d, exist_ok=True)
        return d

    def universe(self, fn, deadline=120.0):
        self.n += 1
        self.universes += 1
        con = os.path.join(self.root, "con%02d" % self.n)
        out = core.universe(fn, con, deadline)
        for k, v in (out.stats or {}).items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.stats[k] = self.stats.get(k, 0) + v
        if out["status"] == "killed":
            self.stats["fault:process_death"] = self.stats.get("fault:process_death", 0) + 1
        self.logs.append((out["status"], out.get("exc"), core.norm(out["console"], self.root), core.norm(out.get("log") or "", self.root)))
        return out

    # worlds ---------------------------------------------------------------
    def payload(self, p, fname="payload.xml"):
        return worlds.write_payload(p, self.root, fname)

    def targets(self, ts, fname="targets.csv"):
        os.makedirs(os.path.dirname(os.path.join(self.root, "in", fname)), exist_ok=True)
        return worlds.write_targets(ts, os.path.join(self.root, "in", os.path.splitext(fname)[0] + worlds.targets_ext(ts)))

    # golden results ---------------------------------------------------------
    def _cached(self, key, make):
        path = os.path.join(self.golden_dir, key + ".pkl")
        if os.path.exists(path):
            with open(path, "rb") as f:
                return pickle.load(f)
        val = make()
        tmp = path + ".%d" % os.getpid()
        with open(tmp, "wb") as f:
            pickle.dump(val, f)
        os.rename(tmp, path)
        return val

    def golden_targets(self, p, ts, full=False):
        """{name: (saved content, saved table)} of each target observed alone in
        a pristine process of its own run; computed together, one universe each."""
        out = {}
        for t in ts:
            key = "t" + worlds.key(p, t, full)
            out[t["name"]] = self._cached(key, lambda: self._golden_one(p, t, full))
        return out

    def _golden_one(self, p, t, full):
        tag = "g" + worlds.key(p, t, full)[:12]
        xml = self.payload(p, tag + ".xml")
        csv = self.targets([t], tag + ".csv")
        o = os.path.join(self.dir(tag), "out.h5")

        def fn():
            pipeline(xml, csv, o, full_contrib=full)

        r = self.universe(fn)
        if not r.ok:
            raise core.Broken("golden run failed: %s %s\n%s" % (r.get("exc"), r.get("msg"), r.get("tb")))
        d = core.dump_h5(o)
        if list(d.get("targets", {})) != [t["name"]]:
            # the observation itself does not work: nothing to compare with
            raise core.Broken("golden run did not observe %s\n%s" % (t["name"], r["console"][-1500:]))
        rt = core.read_tables(o)
        rm_rf(os.path.dirname(o))
        return dict(h5=d["targets"][t["name"]], table=rt[t["name"]])

    def golden_payload(self, p):
        """Saved payload of a run in a pristine process."""

        def make():
            tag = "p" + worlds.key(p)[:12]
            xml = self.payload(p, tag + ".xml")
            o = os.path.join(self.dir(tag), "out.h5")

            def fn():
                from exorad.tasks import PreparePayload

                PreparePayload()(payload_file=xml, output=o)

            r = self.universe(fn)
            if not r.ok:
                raise core.Broken("golden payload failed: %s %s\n%s" % (r.get("exc"), r.get("msg"), r.get("tb")))
            d = core.dump_h5(o)
            return strip_roots(d["payload"], self.root)

        return self._cached("p" + worlds.key(p), make)


def rm_rf(path):
    import shutil

    if os.path.isabs(path) and "/xr." in path:
        shutil.rmtree(path, ignore_errors=True)


def strip_roots(x, root, by="<W>"):
    """The names of the scratch directories do not belong to the results."""
    if isinstance(x, dict):
        return {k: strip_roots(v, root, by) for k, v in x.items()}
    if isinstance(x, list):
        return [strip_roots(v, root, by) for v in x]
    if isinstance(x, str):
        return x.replace(root, by)
    return x


# --------------------------------------------------------------------------
# inside a universe
# --------------------------------------------------------------------------
CLI = False  # run through the command line of the package where it has the option


def pipeline(xml, csv, out, **k):
    import exorad

    if CLI and k.get("replace", True) and isinstance(k.get("log", False), bool):
        import exorad.exorad as e

        argv = ["-p", xml, "-t", csv] + (["-o", out] if out is not None else [])
        for name, flag in (("plot", "-P"), ("full_contrib", "-c"), ("debug", "-d"), ("log", "-l")):
            if k.get(name):
                argv.append(flag)
        if "n_thread" in k:
            argv += ["-n", str(k["n_thread"])]
        command(e.main, argv)
        return
    exorad.standard_pipeline(options=xml, target_list=csv, output=out, **k)


def command(main, argv):
    import sys

    old = sys.argv
    sys.argv = ["exorad"] + argv
    try:
        main()
    except SystemExit as e:
        if e.code not in (None, 0):
            raise
    finally:
        sys.argv = old


def plot_tool(path, out, *argv):
    from exorad.utils import plotter

    command(plotter.main, ["-i", path, "-o", out] + list(argv))


def figures_differ(a, b):
    if core.sha(a) == core.sha(b):
        return None
    if not a.endswith(".png"):
        return None if os.path.getsize(a) == os.path.getsize(b) else "differs"
    import matplotlib.image
    import numpy as np

    x, y = matplotlib.image.imread(a), matplotlib.image.imread(b)
    if x.shape != y.shape:
        return "has another size"
    n = int((np.abs(x - y).max(axis=-1) > 0.1).sum())
    return "differs in %d pixels" % n if n > 20 else None


def build(xml, output=None):
    from exorad.tasks import PreparePayload

    return PreparePayload()(payload_file=xml, output=output)


def observe(target, built):
    from exorad.tasks import ObserveTarget

    payload, channels, wl = built
    return ObserveTarget()(target=target, payload=payload, channels=channels, wl_range=wl)


def canon_target(t):
    c = core.canon(t)
    c.pop("id", None)
    return c


def save_targets(targets, out):
    from exorad.output.hdf5 import HDF5Output

    for t in targets:
        with HDF5Output(out, append=True) as o:
            t.write(o)


IGNORE = ("id",)


def compare_saved(h5, tables, golden, where, per_channel=False, rtol=1e-9):
    """Violations in what an output file holds for the targets in golden."""
    bad = []
    saved = h5.get("targets", {})
    for name, g in golden.items():
        if name not in saved:
            bad.append("%s: target %s is not in the output" % (where, name))
            continue
        d = core.diff(g["h5"], saved[name], rtol, "targets/" + name, IGNORE)
        if d:
            bad.append("%s: %s" % (where, d))
        if tables is not None:
            d = core.diff(g["table"], tables.get(name), rtol, "table of " + name, IGNORE)
            if d:
                bad.append("%s: %s" % (where, d))
    return bad


def read_out(path):
    """(dump, tables, error)"""
    try:
        return core.dump_h5(path), core.read_tables(path), None
    except Exception as e:  # the file is what the system left
        return None, None, "%s: %s" % (type(e).__name__, str(e)[:200])


def skipped(console, names):
    """Names of the targets that a line of the console, not an error of the
    simulator, reports as skipped."""
    out = []
    for n in names:
        for line in console.splitlines():
            if "WARNING" in line and "skipped" in line.lower() and word_in(n, line):
                out.append(n)
                break
    return out


def word_in(word, line):
    import re

    return re.search(r"(?<![\w.-])" + re.escape(word) + r"(?![\w-])", line) is not None


def library_exit():
    """What the HDF5 library does when a process ends without being killed."""
    import ctypes
    import gc

    gc.collect()
    for line in open("/proc/self/maps"):
        if "libhdf5-" in line or "libhdf5.so" in line:
            ctypes.CDLL(line.split()[-1]).H5close()
            return


def progress(path, text):
    """Written at once, and so outlives the process."""
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
    os.write(fd, (text + "\n").encode())
    os.close(fd)


def read_progress(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return f.read().splitlines()


def by_channel(table):
    """Table content with its rows grouped by channel, whatever their order."""
    import numpy as np

    if not isinstance(table, dict) or "#table" not in table:
        return table
    cols = table["#table"]
    order = np.argsort(np.array([str(x) for x in cols["chName"]["#c"]]), kind="stable")
    return {"#table": {k: {"#c": np.asarray(v["#c"])[order], "#u": v["#u"]} for k, v in cols.items()}, "#meta": table.get("#meta")}


def compare_tables(tables, golden, where, rtol=1e-9, meta=False):
    bad = []
    for name, g in golden.items():
        if name not in tables:
            bad.append("%s: target %s is not in the output" % (where, name))
            continue
        d = core.diff(by_channel(g["table"]), by_channel(tables[name]), rtol, "table of " + name, IGNORE + (() if meta else ("#meta",)))
        if d:
            bad.append("%s: %s" % (where, d))
    return bad


def copy_file(a, b):
    with open(a, "rb") as f:
        data = f.read()
    with open(b, "wb") as f:
        f.write(data)


def copy_dir(a, b):
    os.makedirs(b, exist_ok=True)
    for n in os.listdir(a):
        if os.path.isfile(os.path.join(a, n)):
            copy_file(os.path.join(a, n), os.path.join(b, n))
