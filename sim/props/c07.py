"""C07: a clean rerun always recovers."""
import os

from sim import core, executor, ops, seams, worlds

PLAN = dict(
    quick=44, thorough=1500,
    rule="one scenario = one to three runs that fail, are interrupted or die at any point (disk, exception or interrupt at any line, worker death, network-less import), then the same run without fault in a new "
         "process or in the same one; non-trivial when a fault fired; a signature names the world and the faults",
    assumptions=["the run of a pristine process in an empty directory is the reference"],
    stub="system calls on the output directory (LD_PRELOAD), worker scheduling, 2D convolution looked up by content",
    technique="deterministic simulation: seeded crashes, disk faults and interrupts at any point, then recovery compared with a run that never failed")


def generate(rng, i, tier):
    p = worlds.gen_payload(rng, max_ch=2)
    ts = worlds.gen_targets(rng, rng.choice([1, 2, 2, 3]))
    sc = dict(payload=p, targets=ts, plot=rng.random() < 0.1, same=rng.random() < 0.5, workers=rng.choice([1, 1, 1, 2]), seed=rng.randrange(10**9), restart=rng.random() < 0.15,
              log=rng.random() < 0.3, full=rng.random() < 0.15, faults=[])
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(["disk", "disk", "line", "line", "line"] + (["die"] if sc["workers"] > 1 else []))
        if kind == "disk":
            rule = seams.gen_disk_rule(rng, sub=rng.choice([".h5", ".h5", ""]))
            if not sc["same"] and rng.random() < 0.5:
                rule.update(action=rng.choice(["kill", "torn"]) if rule["ops"] == ["write"] else "kill", arg=40)
            sc["faults"].append(dict(kind="disk", rule=rule))
        elif kind == "line":
            sc["faults"].append(dict(kind="line", frac=round(rng.random(), 5), exc=rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "SimFault", "OSError", "MemoryError", "SystemExit"])))
        else:
            sc["faults"].append(dict(kind="die", task=rng.randrange(len(ts)), step=rng.choice([1, 3, 10])))
    return sc


def run(sc, ctx):
    p, ts = sc["payload"], sc["targets"]
    xml, csv = ctx.payload(p), ctx.targets(ts)
    src = xml
    if sc["restart"]:
        src = os.path.join(ctx.dir("in"), "saved.h5")
        r = ctx.universe(lambda: ops.build(xml, src) and None)
        if not r.ok:
            raise core.Broken("no saved payload: %s" % r.get("tb"))
    kinds = [f["kind"] for f in sc["faults"]]

    def call(d, workers=None):
        ops.pipeline(src, csv, os.path.join(d, "out.h5"), plot=sc["plot"], n_thread=workers or sc["workers"], full_contrib=sc["full"], log=os.path.join(d, "run.log") if sc["log"] else False)

    # the reference, which also counts the chances of the faults
    gd = ctx.dir("golden")
    rules = [f["rule"] for f in sc["faults"] if f["kind"] == "disk"]

    def golden():
        lines = seams.Lines(None)
        seams.dry_disk(gd, rules)
        if "line" in kinds:
            lines.start()
        call(gd, 1)
        lines.stop()
        seen = seams.seen_disk(len(rules))
        seams.disarm_disk()
        return seen, len(lines.found())

    g = ctx.universe(golden)
    if not g.ok:
        return dict(violations=["the run without fault ended with %s: %s" % (g.get("exc") or g.status, g.get("msg"))], sig="x")
    seen, n = g.value
    want = content(gd, ctx)
    size = os.path.getsize(os.path.join(gd, "out.h5"))
    faults = []
    k = 0
    for f in sc["faults"]:
        if f["kind"] == "disk":
            faults.append(dict(kind="disk", rules=seams.resolve_disk([f["rule"]], [seen[k]], size)))
            k += 1
        elif f["kind"] == "line":
            faults.append(dict(kind="line", at=int(f["frac"] * n), exc=f["exc"]))
        else:
            faults.append(f)
    d = ctx.dir("out")

    def faulty(f):
        if sc["workers"] > 1:
            executor.activate(dict(seed=sc["seed"], start="fork", die=[[f["task"], f["step"]]] if f["kind"] == "die" else []))
        lines = seams.Lines(f["at"], f["exc"]) if f["kind"] == "line" else None

        def body():
            if lines:
                lines.start()
            try:
                call(d)
            finally:
                if lines:
                    lines.stop()

        try:
            seams.with_disk(d, f.get("rules", []), body)
            return "ok"
        except BaseException as e:
            if isinstance(e, core.SimHang):
                raise
            return type(e).__name__
        finally:
            if executor.S is not None:
                executor.finish()
                executor.S = None

    bad = []
    ends = []
    if sc["same"]:
        def story():
            for f in faults:
                ends.append(faulty(f))
            if sc["workers"] > 1:
                executor.activate(dict(seed=sc["seed"] + 1, start="fork"))
            call(d)
            if executor.S is not None:
                executor.finish()
            return ends

        r = ctx.universe(story)
        if r.ok:
            ends = r.value
    else:
        for f in faults:
            def alone(f=f):
                e = faulty(f)
                ops.library_exit()
                return e

            u = ctx.universe(alone)
            ends.append(u.value if u.ok else u.status)
            if u.status == "hang":
                bad.append("the run with a fault does not end")

        def clean():
            if sc["workers"] > 1:
                executor.activate(dict(seed=sc["seed"] + 1, start="fork"))
            call(d)
            if executor.S is not None:
                executor.finish()

        r = ctx.universe(clean)
    failed = sum(e != "ok" for e in ends)
    if sc["same"] and r.status == "crash":
        return dict(violations=[], nontrivial=False, sig="crash", note="the process was killed by the container library")
    if not r.ok:
        bad.append("after %s, the run without fault ended with %s: %s" % (ends, r.exc or r.status, r.msg))
    else:
        got = content(d, ctx)
        x = core.diff(want, got, 1e-9, "")
        if x:
            bad.append("after %s, the run without fault gives something else: %s" % (ends, x))
    fired = sum(v for q, v in ctx.stats.items() if q.startswith("fault:"))
    return dict(violations=bad, nontrivial=fired > 0, sig=worlds.key(p, ts, faults, sc["same"], sc["workers"]), note="%s then %s (%d failed)" % (ends, "same process" if sc["same"] else "new process", failed))


def content(d, ctx):
    """Everything the run leaves, but for the log file."""
    out = {}
    for n in sorted(os.listdir(d)):
        path = os.path.join(d, n)
        if n == "run.log":
            continue
        if n == "out.h5":
            try:
                h5, tab, err = ops.read_out(path)
                if err:
                    out[n] = "unreadable " + err
                    continue
                h5 = ops.strip_roots(h5, ctx.root)
                h5.pop("info", None)
                _drop_ids(h5)
                out[n] = dict(h5=h5, tables=tab)
            except Exception as e:
                out[n] = repr(e)
        else:
            out[n] = core.sha(path)
    return out


def _drop_ids(h5):
    for t in h5.get("targets", {}).values():
        t.pop("id", None)
