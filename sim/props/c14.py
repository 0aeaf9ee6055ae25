"""C14: an interrupt always stops the run and leaves the session usable."""
import logging
import os
import sys

from sim import core, executor, ops, seams, worlds

PLAN = dict(
    quick=88, thorough=3000,
    rule="one scenario = one run (pipeline, command line or target list, with or without workers, plots, log file, saved payload) interrupted at one execution of one line of the package, in the main process "
         "or in a worker, or while the main process waits for the workers; then messages are sent to see which verbosity is in force; non-trivial when the interrupt was delivered; a signature names "
         "the world, the line and its execution",
    assumptions=["interrupts arrive between two lines of the package, or while waiting for the workers; finalizers are excluded (Python ignores what they raise)"],
    stub="worker scheduling, 2D convolution looked up by content",
    technique="deterministic simulation: interrupts delivered at every kind of point of seeded runs")

LEVELS = [10, 20, 30, 40]


def generate(rng, i, tier):
    p = worlds.gen_payload(rng, max_ch=2)
    ts = worlds.gen_targets(rng, rng.choice([1, 2, 2, 3]))
    sc = dict(payload=p, targets=ts, mode=rng.choice(["pipeline", "pipeline", "cli", "list"]), output=rng.random() < 0.6, plot=rng.random() < 0.25, log=rng.random() < 0.2, debug=rng.random() < 0.15,
              full=rng.random() < 0.15, restart=rng.random() < 0.15, workers=rng.choice([1, 1, 1, 2, 3]), level=rng.choice(LEVELS), exc=rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "SystemExit"]),
              seed=rng.randrange(10**9))
    where = ["line", "line", "obs"]
    if sc["workers"] > 1:
        where = ["line", "worker", "worker", "wait"]
    sc.update(where=rng.choice(where), target=rng.randrange(len(ts)), frac=round(rng.random(), 5), frac2=round(rng.random() ** 2, 4))
    if sc["where"] == "obs":
        sc["output"] = False
    if sc["plot"] and sc["where"] == "line" and rng.random() < 0.6:
        # while figures are drawn
        sc["near"] = "figure"
        if sc["mode"] != "list":
            sc["output"] = True
    return sc


def run(sc, ctx):
    p, ts = sc["payload"], sc["targets"]
    xml, csv = ctx.payload(p), ctx.targets(ts)
    name = ts[min(sc["target"], len(ts) - 1)]["name"]
    src = xml
    if sc["restart"]:
        src = os.path.join(ctx.dir("in"), "saved.h5")
        r = ctx.universe(lambda: ops.build(xml, src) and None)
        if not r.ok:
            raise core.Broken("no saved payload: %s" % r.get("tb"))

    def attempt(d, at, nth, step):
        def fn():
            import exorad.log as xlog
            from exorad.tasks import LoadTargetList, ObserveTargetlist

            os.chdir(d)
            xlog.setLogLevel(sc["level"])
            lines = seams.Lines(at, sc["exc"], nth)
            started = seams.watch_observations()
            at_fire = []
            lines.on_fire = lambda: at_fire.append(len(started))
            if sc["where"] in ("obs", "worker"):
                seams.in_observation(lines, name)
            lines.home = sc["where"] == "line"
            marks = []
            if at is None and sc.get("near"):
                _mark_figures(lines, marks)
            if sc["workers"] > 1:
                executor.activate(dict(seed=sc["seed"], start="fork", interrupt_parent=step))
            out = os.path.join(d, "out.h5") if sc["output"] else None
            logf = os.path.join(d, "run.log") if sc["log"] else False
            built = None
            if sc["mode"] == "list":
                built = ops.build(src)
            end = "ok"
            try:
                if sc["where"] == "line":
                    lines.start()
                if sc["mode"] == "pipeline":
                    ops.pipeline(src, csv, out, plot=sc["plot"] and sc["output"], n_thread=sc["workers"], debug=sc["debug"], log=logf, full_contrib=sc["full"])
                elif sc["mode"] == "cli":
                    from exorad.exorad import main

                    sys.argv = ["exorad", "-p", src, "-t", csv, "-n", str(sc["workers"])] + (["-o", out] if out else []) + ["-d"] * sc["debug"] + ["-l"] * sc["log"] + ["-P"] * bool(sc["plot"] and out)
                    main()
                else:
                    ObserveTargetlist()(targets=LoadTargetList()(target_list=csv).target, payload=built[0], channels=built[1], wl_range=built[2], plot=sc["plot"], out_dir=d, n_thread=sc["workers"],
                                        debug=sc["debug"])
            except core.SimHang:
                raise
            except BaseException as e:
                end = type(e).__name__
            finally:
                lines.stop()
                steps = 0
                if executor.S is not None:
                    steps = executor.S.steps
                    interrupted = executor.S.parent_interrupted
                    executor.finish()
                    executor.S = None
                else:
                    interrupted = False
            probe = logging.getLogger("exorad.Probe")
            for lv in LEVELS:
                probe.log(lv, "after the end %d" % lv)
            return dict(end=end, found=lines.found(), steps=steps, fired=lines.fired, at_fire=at_fire, started=started, interrupted=interrupted, marks=marks)

        return ctx.universe(fn)

    dry = attempt(ctx.dir("dry"), None, 1, None)
    if not dry.ok or dry.value["end"] != "ok":
        return dict(violations=["the run without interrupt ended with %s" % (dry.value["end"] if dry.ok else dry.exc or dry.status)], sig="x")
    found, steps = dry.value["found"], dry.value["steps"]
    at = nth = step = None
    if sc["where"] == "wait":
        step = int(sc["frac"] * max(steps - 1, 1))
    else:
        if sc["where"] == "worker":
            # the lines are executed in the workers: found by observing without them
            keep = dict(sc)
            sc = dict(sc, workers=1)
            d1 = attempt(ctx.dir("dry1"), None, 1, None)
            sc = keep
            found = d1.value["found"] if d1.ok else []
        if not found:
            return dict(violations=[], nontrivial=False, sig="no line")
        at = int(sc["frac"] * len(found))
        m = dry.value["marks"]
        spans = [(a, b) for (k, a), (_, b) in zip(m, m[1:]) if k == "figure" and b > a]
        if sc.get("near") and spans:
            # among the lines first met while a figure is open
            a, b = spans[int(sc["frac2"] * len(spans))]
            at = min(a + int(sc["frac"] * (b - a)), len(found) - 1)
        nth = 1 + int(sc["frac2"] * found[at])
    r = attempt(ctx.dir("out"), at, nth or 1, step)
    if not r.ok:
        return dict(violations=["the interrupted run ended with %s: %s" % (r.exc or r.status, r.msg)], sig="x")
    v = r.value
    want = "KeyboardInterrupt" if sc["where"] == "wait" else sc["exc"]
    fired_line = r.stats.get("fired_line") or v["fired"]
    delivered = bool(fired_line or v["interrupted"])
    what = "interrupt (%s) at %s, execution %s" % (want, fired_line or "step %s" % step, nth)
    bad = []
    if delivered:
        if v["end"] != want:
            bad.append("%s: the run ended with %s" % (what, v["end"]))
        if sc["workers"] == 1 and v["at_fire"] and len(v["started"]) > v["at_fire"][0]:
            later = v["started"][v["at_fire"][0]:]
            bad.append("%s: %s started afterwards" % (what, later))
    elif v["end"] != "ok":
        bad.append("not interrupted, the run ended with %s" % v["end"])
    levels = [sc["level"]] + ([10] if sc["debug"] and sc["mode"] != "list" else [])
    shown = [lv for lv in LEVELS if ("after the end %d" % lv) in r["console"]]
    if shown not in [[lv for lv in LEVELS if lv >= x] for x in levels]:
        bad.append("%s: afterwards the console shows the levels %s, the level set is %s" % (what if delivered else "no interrupt", shown, levels))
    return dict(violations=bad, nontrivial=delivered, sig=worlds.key(p, len(ts), fired_line, nth, step, sc["mode"], sc["exc"]), note="%s -> %s" % (what, v["end"]))


def _mark_figures(lines, marks):
    import matplotlib.pyplot as plt

    for name in ("figure", "close"):
        real = getattr(plt, name)

        def marked(*a, _real=real, _name=name, **k):
            marks.append((_name, len(lines.order)))
            return _real(*a, **k)

        setattr(plt, name, marked)
