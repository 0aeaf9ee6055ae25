"""C01: parallel runs give exactly what a sequential run gives."""
import os

from sim import core, executor, ops, seams, worlds

PLAN = dict(
    quick=56, thorough=1100,
    rule="one scenario = one generated payload and target list observed by 2..6 simulated workers under a seeded schedule, with stalled and dying workers and failing targets, against the same "
         "observation made sequentially; non-trivial when at least two workers were interleaved or a worker died; a signature is the sequence of (task) grants of the schedule",
    measure="distinct schedules (hash of the sequence of worker grants)",
    assumptions=["exactly one worker runs at a time, switching at logged messages, task calls and file openings: workers share no memory, so finer interleavings cannot be told apart",
                 "the sequential run is the reference (C02, C03 decide whether it is right)"],
    real="the whole package in really forked worker processes, real pickling of tasks and results",
    stub="concurrent.futures scheduling (seeded scheduler), clock of the scheduler, 2D convolution looked up by content",
    technique="deterministic simulation of the worker pool: seeded schedules, stalls and worker deaths, against the sequential execution")


def generate(rng, i, tier):
    p = worlds.gen_payload(rng)
    n = rng.choice([1, 2, 3, 3, 4, 5, 6])
    ts = worlds.gen_targets(rng, n)
    empty = rng.random() < 0.07
    workers = rng.choice([2, 2, 3, 4, 6])
    plan = dict(seed=rng.randrange(10**9), start=rng.choice(["fork", "spawn"]), prefork=workers + 2, stall=[], die=[])
    for _ in range(rng.choice([0, 1, 1, 2])):
        plan["stall"].append([rng.randrange(n), rng.randrange(1, 25), rng.choice([5, 70, 400, 4000, 100000])])
    if rng.random() < 0.2:
        plan["die"].append([rng.randrange(n), rng.choice([1, 2, 5, 15, 30])])
    sc = dict(payload=p, targets=ts, workers=workers, plan=plan, mode=rng.choice(["api", "pipeline"]), plot=rng.random() < 0.12, debug=rng.random() < 0.15,
              dup=n > 1 and rng.random() < 0.15, bad=[], faults=[], other=rng.random() < 0.5)
    if sc["mode"] == "api" and rng.random() < 0.35:
        sc["bad"].append([rng.randrange(n + 1), rng.choice(["noTeff", "unitless", "noD", "wrongunit"])])
    if rng.random() < 0.3:
        sc["faults"].append(dict(target=rng.randrange(n), frac=round(rng.random(), 4), exc=rng.choice(["SimFault", "RuntimeError", "MemoryError"])))
    if empty:
        sc.update(targets=[], bad=[], faults=[], dup=False)
    return sc


def run(sc, ctx):
    p, ts = sc["payload"], sc["targets"]
    xml, csv = ctx.payload(p), ctx.targets(ts + ([dict(ts[0], Teff=ts[0]["Teff"] + 200)] if sc["dup"] else []))
    oxml = ctx.payload(dict(p, R=p["R"] + 37, cfg="in2" if p["cfg"] == "in" else "in"), "other.xml") if sc["other"] else None
    fault = sc["faults"][0] if sc["faults"] and sc["faults"][0]["target"] < len(ts) else None
    if sc["dup"] and fault and fault["target"] == 0:
        fault = None  # it would strike each of the two in a process of its own, the first one otherwise

    def attempt(where, at, workers, plan):
        d = ctx.dir(where)
        out = os.path.join(d, "out.h5")

        def fn():
            lines = None
            if fault:
                lines = seams.Lines(at, fault["exc"])
                seams.in_observation(lines, ts[fault["target"]]["name"])
            if plan:
                executor.activate(plan)
            if oxml:
                # another payload was used before in this process
                ops.build(oxml)
            try:
                if sc["mode"] == "pipeline":
                    ops.pipeline(xml, csv, out, n_thread=workers, plot=sc["plot"], debug=sc["debug"])
                    res = None
                else:
                    res = _api(sc, xml, csv, d, workers)
            finally:
                if plan:
                    executor.finish()
            return res, (lines.found() if lines else None)

        r = ctx.universe(fn)
        pics = {f: core.sha(os.path.join(d, f)) for f in sorted(os.listdir(d)) if f.endswith(".png")}
        return r, out, pics

    at = None
    if fault:
        r, _, _ = attempt("dry", None, 1, None)
        if not r.ok:
            return dict(violations=["the sequential run without fault ended with %s: %s" % (r.get("exc") or r.status, r.get("msg"))], sig="x")
        n = len(r.value[1])
        at = int(fault["frac"] * n) if n else None
    seq, sout, spics = attempt("seq", at, 1, None)
    par, pout, ppics = attempt("par", at, sc["workers"], sc["plan"])
    sig = par.stats.get("sched_trace") or worlds.key(sc)
    bad = []
    died = par.stats.get("fault:worker_death")
    if par.status in ("hang", "crash", "killed"):
        bad.append("parallel run: %s %s" % (par.status, par.get("msg") or ""))
    elif died:
        if par.ok:
            bad.append("a worker died and the run ended normally")
    elif not seq.ok:
        if par.ok or par.exc != seq.exc:
            bad.append("sequential run: %s, parallel run: %s" % (seq.exc, par.exc or par.status))
    elif not par.ok:
        bad.append("the parallel run ended with %s: %s" % (par.exc, par.msg))
    else:
        if sc["mode"] == "pipeline":
            a, ta, e1 = ops.read_out(sout)
            b, tb, e2 = ops.read_out(pout)
            if e1 or e2:
                bad.append("output: %s" % (e1 or e2))
            else:
                a, b = ops.strip_roots(a, ctx.root), ops.strip_roots(b, ctx.root)
                for x in (a, b):
                    x.pop("info", None)
                d = core.diff(a, b, 0.0, "", ops.IGNORE) or core.diff(ta, tb, 0.0, "", ops.IGNORE)
                if d:
                    bad.append("outputs differ: " + d)
        else:
            a, b = seq.value[0], par.value[0]
            if [x[0] for x in a] != [x[0] for x in b]:
                bad.append("sequential order %s, parallel order %s" % ([x[0] for x in a], [x[0] for x in b]))
            for (n1, x), (n2, y) in zip(a, b):
                d = core.diff(x, y, 0.0, n1, ops.IGNORE)
                if d:
                    bad.append("results differ: " + d)
        names = [t["name"] for t in ts] + ["bad%d" % b[0] for b in sc["bad"]]
        s1, s2 = ops.skipped(seq["console"], names), ops.skipped(par["console"], names)
        if sorted(s1) != sorted(s2):
            bad.append("skipped: sequential %s, parallel %s" % (s1, s2))
        if spics != ppics:
            bad.append("figures differ: %s" % sorted(set(spics.items()) ^ set(ppics.items()))[:2])
    inter = par.stats.get("sched_switches", 0)
    return dict(violations=bad, nontrivial=bool(inter or died), sig=sig, note="switches %s, death %s, %s" % (inter, died or 0, par.exc or par.status))


def _api(sc, xml, csv, d, workers):
    from exorad.tasks import LoadTargetList, ObserveTargetlist

    payload, channels, wl = ops.build(xml)
    targets = list(LoadTargetList()(target_list=csv).target)
    for pos, kind in sc["bad"]:
        targets.insert(min(pos, len(targets)), worlds.api_target(dict(sc["targets"][0], name="bad%d" % pos, bad=kind)))
    got = ObserveTargetlist()(targets=targets, payload=payload, channels=channels, wl_range=wl, plot=sc["plot"], out_dir=d, n_thread=workers, debug=sc["debug"])
    return [(str(k), ops.canon_target(got[k])) for k in got]
