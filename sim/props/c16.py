"""C16: a finished run holds no resources."""
import os
import sys

from sim import core, executor, ops, seams, worlds

PLAN = dict(
    quick=48, thorough=2500,
    rule="one scenario = a process with one run that went well and then one to three runs (plots, log, workers, saved payloads) with disk errors on inputs and outputs, failing library calls and figures, "
         "bad inputs, failing targets and dying workers; after each, while its exception is still at hand, what the process holds is compared with what it held before; non-trivial when a fault fired; a "
         "signature names the runs and the faults",
    assumptions=["errors are met where the package calls something (libraries, system), not inside what releases a resource", "the log file asked for stays open; a container whose own closing fails is left to the library"],
    stub="system calls (LD_PRELOAD), worker scheduling, 2D convolution looked up by content",
    technique="deterministic simulation: seeded failures at the calls the package makes, and a census of descriptors, containers, processes, threads, figures and files after each run")


def generate(rng, i, tier):
    p = worlds.gen_payload(rng, max_ch=2)
    if rng.random() < 0.5:
        p["src"] = rng.choice(["phoenix", "custom"])
    ts = worlds.gen_targets(rng, rng.choice([1, 2]))
    runs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = dict(src=rng.choice(["xml", "xml", "saved"]), plot=rng.random() < 0.2, log=rng.random() < 0.2, full=rng.random() < 0.1, output=rng.random() < 0.85, replace=rng.random() < 0.8,
                 workers=rng.choice([1, 1, 1, 2]), seed=rng.randrange(10**9), fault=None)
        k = rng.choice(["disk", "disk", "in", "lib", "lib", "lib", "bad", "die" if r["workers"] > 1 else "lib", "none"])
        r["tool"] = rng.random() < 0.15
        if r["tool"]:
            r["workers"] = 1
            k = rng.choice(["disk", "in", "lib", "figure", "bad", "none"])
        if r["plot"] and rng.random() < 0.3:
            k = "figure"
        if k == "disk":
            r["fault"] = dict(kind="disk", rule=seams.gen_disk_rule(rng, sub=rng.choice([".h5", ""])))
        elif k == "in":
            rule = dict(ops=[rng.choice(["open", "read", "read"])], sub="in", action=rng.choice(["err", "err", "sticky"]), err=rng.choice(["EIO", "EACCES"]), count=1, frac=round(rng.random(), 5))
            r["fault"] = dict(kind="disk", rule=rule)
        elif k == "lib":
            r["fault"] = dict(kind="lib", frac=round(rng.random(), 5), frac2=round(rng.random() ** 2, 4), exc=rng.choice(["MemoryError", "OSError", "ValueError", "SimFault", "KeyboardInterrupt"]))
        elif k == "bad":
            r["fault"] = dict(kind="bad", what=rng.choice(["csv", "xml", "nofile", "nolist", "noclass", "trunc", "xlsx", "xlsx2"]))
            if r["tool"]:
                r["fault"]["what"] = rng.choice(["nofile", "trunc", "notable"])
        elif k == "die":
            r["fault"] = dict(kind="die", task=rng.randrange(len(ts)), step=rng.choice([1, 3, 10, 30]))
        elif k == "figure":
            r["fault"] = dict(kind="figure", name=rng.choice(["efficiency"] + [t["name"] for t in ts]))
        runs.append(r)
    return dict(payload=p, targets=ts, runs=runs)


def census(logfile):
    import gc
    import threading

    import h5py
    import matplotlib.pyplot as plt

    fds = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            to = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue
        if to.endswith(".ttf"):
            continue  # fonts that the plotting library keeps
        if to.startswith("/") and not to.startswith("/proc") and not to.startswith("/dev") and to not in logfile:
            fds[to] = fds.get(to, 0) + 1
        elif to.startswith(("socket:", "pipe:")):
            fds[to.split(":")[0]] = fds.get(to.split(":")[0], 0) + 1
    kids = 0
    for t in os.listdir("/proc/self/task"):
        with open("/proc/self/task/%s/children" % t) as f:
            for pid in f.read().split():
                try:
                    with open("/proc/%s/stat" % pid) as g:
                        kids += g.read().split(")")[-1].split()[0] != "Z"
                except OSError:
                    pass
    return dict(fds=fds, containers=int(h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE | h5py.h5f.OBJ_DATASET | h5py.h5f.OBJ_GROUP | h5py.h5f.OBJ_ATTR)), children=kids, threads=threading.active_count(), figures=len(plt.get_fignums()))


def run(sc, ctx):
    p, ts = sc["payload"], sc["targets"]
    xml, csv = ctx.payload(p), ctx.targets(ts)
    saved = os.path.join(ctx.dir("in"), "saved.h5")
    results = os.path.join(ctx.dir("in"), "results.h5")
    tool = any(x.get("tool") for x in sc["runs"])
    r = ctx.universe(lambda: ops.pipeline(xml, csv, results) if tool else ops.build(xml, saved) and None)
    if not r.ok:
        raise core.Broken("no saved payload: %s" % r.get("tb"))
    if tool:
        ops.copy_file(results, saved)
    names = [t["name"] for t in ts]
    out0 = ctx.dir("out")

    def story(dry, plan):
        import gc
        import tempfile

        import matplotlib.pyplot as plt

        d = ctx.dir("dry" if dry else "out")
        tmp = ctx.dir("tmp_dry" if dry else "tmp")
        tempfile.tempdir = tmp
        os.environ["TMPDIR"] = tmp
        os.chdir(d)
        logs = set()
        plt.close(plt.figure())
        ops.pipeline(xml, csv, os.path.join(ctx.dir("warm"), "out.h5"), plot=any(x["plot"] for x in sc["runs"]))
        met = []
        found = []
        real_savefig = None
        import h5py

        failed = []
        real_close = h5py.File.close

        def close(self):
            try:
                name = self.filename if self else None
                return real_close(self)
            except BaseException:
                failed.append(name)
                raise

        h5py.File.close = close
        for n, e in enumerate(sc["runs"]):
            f = e["fault"]
            src, lst = (xml if e["src"] == "xml" else saved), csv
            if f and f["kind"] == "bad":
                src, lst = _bad(f["what"], results if e.get("tool") else src, lst, ctx)
            elif e.get("tool"):
                src = results
            out = os.path.join(d, "out.h5") if e["output"] else None
            logf = os.path.join(d, "run.log") if e["log"] else False
            if logf:
                logs.add(logf)
            rules = []
            lib = None
            if f and f["kind"] == "disk":
                rules = [f["rule"]] if dry else plan[n]["rules"]
            elif f and f["kind"] == "lib":
                lib = seams.LibCalls(None) if dry else seams.LibCalls(plan[n]["at"], f["exc"], plan[n]["nth"])
            from matplotlib.figure import Figure

            real_savefig = Figure.savefig
            if f and f["kind"] == "figure" and not dry:
                seams.fail_figure(f["name"])
            before = census(logs)
            files = {x: set(os.listdir(x)) for x in (d, tmp)}
            if e["workers"] > 1:
                executor.activate(dict(seed=e["seed"], start="fork", die=[[f["task"], f["step"]]] if f and f["kind"] == "die" and not dry else []))
            end, keep = "ok", None

            def body():
                if lib:
                    lib.start()
                try:
                    if e.get("tool"):
                        ops.plot_tool(src, d)
                        return
                    ops.pipeline(src, lst, out, plot=e["plot"] and bool(out), log=logf, full_contrib=e["full"], n_thread=e["workers"], replace=e["replace"])
                finally:
                    sys.settrace(None)

            hard = False
            try:
                _, seen = seams.with_disk(ctx.root, rules, body, dry)
            except core.SimHang:
                raise
            except BaseException as x:
                keep = x  # with its traceback, as an interactive session keeps it
                end = type(x).__name__
                seen = seams.seen_disk(len(rules))
            if rules and rules[0]["ops"][0] in ("read", "close", "open"):
                # what a library left open when it could not read goes with the exception
                keep = None
                gc.collect()
            after = census(logs)
            if any(x.endswith(".xlsx") for x in after["fds"]):
                # the reader of spreadsheets leaves its archive in a cycle of its own, or in its frames
                keep = None
                gc.collect()
                after["fds"] = census(logs)["fds"]
            if any(x.endswith(".fits") for x in after["fds"]):
                # images that are mapped in memory go with the frames that hold them
                keep = None
                gc.collect()
                after["fds"] = census(logs)["fds"]
            left = {x: set(os.listdir(x)) - files[x] for x in (d, tmp)}
            if executor.S is not None:
                executor.finish()
                executor.S = None
            Figure.savefig = real_savefig
            ok = {"out.h5", "run.log", "efficiency.png"} | {x + ".png" for x in names} | {os.path.basename(src), os.path.basename(lst)}
            strange = sorted(left[d] - ok) + sorted("TMPDIR/" + x for x in left[tmp])
            found.append(dict(seen=seen, lib=lib.found() if lib else None, size=os.path.getsize(out) if out and os.path.exists(out) else 0))
            if failed:
                # the library could not close it: nothing the package can do
                after["containers"] = min(after["containers"], before["containers"])
                for x in failed:
                    after["fds"].pop(x, None)
                failed.clear()
            met.append(dict(end=end, before=before, after=after, strange=strange, fired=lib.fired if lib else None))
            keep = None
        return met, found

    plan = [{} for _ in sc["runs"]]
    if any(e["fault"] and e["fault"]["kind"] in ("disk", "lib") for e in sc["runs"]):
        r = ctx.universe(lambda: story(True, plan)[1])
        if not r.ok:
            raise core.Broken("dry run: %s %s" % (r.status, r.get("tb")))
        for n, e in enumerate(sc["runs"]):
            f, g = e["fault"], r.value[n]
            if f and f["kind"] == "disk":
                plan[n] = dict(rules=seams.resolve_disk([f["rule"]], g["seen"], g["size"]))
            elif f and f["kind"] == "lib":
                k = g["lib"] or [1]
                at = int(f["frac"] * len(k))
                plan[n] = dict(at=at, nth=1 + int(f["frac2"] * k[at]))
    r = ctx.universe(lambda: story(False, plan)[0])
    if r.status == "crash":
        return dict(violations=[], nontrivial=False, sig="crash", note="the process was killed by the container library")
    if not r.ok:
        return dict(violations=["the runs ended with %s: %s" % (r.exc or r.status, r.msg)], sig="x")
    bad = []
    for n, m in enumerate(r.value):
        e = sc["runs"][n]
        what = "run %d (%s%s, fault %s): " % (n, m["end"], ", plotting tool" if e.get("tool") else ", plot" if e["plot"] else "", m["fired"] or (e["fault"] or {}).get("kind"))
        for k in ("fds", "containers", "children", "threads", "figures"):
            a, b = m["before"][k], m["after"][k]
            if k == "fds":
                more = {x: v for x, v in b.items() if v > a.get(x, 0)}
                if more:
                    bad.append(what + "still open: %s" % core.norm(str(sorted(more)), ctx.root))
            elif b > a:
                bad.append(what + "%s: %d before, %d after" % (k, a, b))
        if m["strange"]:
            bad.append(what + "files left: %s" % m["strange"])
    fired = sum(v for q, v in ctx.stats.items() if q.startswith("fault:"))
    return dict(violations=bad, nontrivial=fired > 0, sig=worlds.key(p, sc["runs"], [m["fired"] for m in r.value]), note="%s" % [m["end"] for m in r.value])


def _bad(what, src, lst, ctx):
    d = ctx.dir("in")
    if what == "nofile":
        return os.path.join(d, "absent" + os.path.splitext(src)[1]), lst
    if what == "nolist":
        return src, os.path.join(d, "absent.csv")
    path = os.path.join(d, "bad_" + what + (os.path.splitext(src)[1] if what in ("xml", "trunc", "noclass", "notable") else ".csv"))
    if what == "csv":
        with open(path, "w") as f:
            f.write('star name,star M [M_sun],"star\nA,1,2,3,4\n')
        return src, path
    if what.startswith("xlsx"):
        # not a spreadsheet, or one that is not a list of targets
        path = os.path.join(d, "bad_" + what + ".xlsx")
        worlds.write_xlsx([], path, "Sheet2" if what == "xlsx2" else "Sheet1")
        with open(path, "rb") as f:
            data = f.read()
        with open(path, "wb") as f:
            f.write(data[: len(data) // 2] if what == "xlsx" else data)
        return src, path
    with open(src, "rb") as f:
        data = f.read()
    if what == "notable":
        # a result without its table comes after one that has it
        import h5py

        ops.copy_file(src, path)
        with h5py.File(path, "r+") as f:
            f["targets"].create_group("zz")
        return path, lst
    if what == "trunc":
        data = data[: len(data) * 2 // 3]
    elif what == "xml":
        data = data.replace(b"<optics>", b"<opticss>", 1)
    elif what == "noclass":
        data = data.replace(b"Photometer", b"Photomeler").replace(b"Spectrometer", b"Spectromeler")
    with open(path, "wb") as f:
        f.write(data)
    return path, lst
