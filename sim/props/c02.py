"""C02: a target's result does not depend on the other targets."""
import os

from sim import core, ops, seams, worlds

PLAN = dict(quick=64, thorough=1200, rule="one scenario = one generated payload and target list observed in one process, in a chosen order, with failing targets in between, "
            "against each target observed alone in a pristine process; non-trivial when at least two targets were observed",
            assumptions=["a target observed alone in a pristine process is the reference"])


def generate(rng, i, tier):
    p = worlds.gen_payload(rng)
    n = rng.choice([2, 3, 3, 4, 5])
    ts = worlds.gen_targets(rng, n)
    mode = rng.choice(["pipeline", "api", "api"])
    sc = dict(payload=p, targets=ts, mode=mode, full=mode == "pipeline" and rng.random() < 0.3, bad=[], faults=[])
    if mode == "api":
        # order of observation, with repetitions and failing targets
        order = list(range(n)) + [rng.randrange(n) for _ in range(rng.choice([0, 1, 2]))]
        rng.shuffle(order)
        sc["ops"] = order
        sc["via"] = rng.choice(["list", "single"])
        for _ in range(rng.choice([0, 0, 1, 2])):
            sc["bad"].append([rng.randrange(len(order) + 1), rng.choice(["noTeff", "unitless", "noD", "wrongunit"])])
    if rng.random() < 0.35:
        sc["faults"].append(dict(target=rng.randrange(n), frac=round(rng.random(), 4), exc=rng.choice(["SimFault", "RuntimeError", "MemoryError"])))
    return sc


def run(sc, ctx):
    p, ts = sc["payload"], sc["targets"]
    golden = ctx.golden_targets(p, ts, sc["full"])
    xml = ctx.payload(p)
    csv = ctx.targets(ts)
    fault = sc["faults"][0] if sc["faults"] and sc["faults"][0]["target"] < len(ts) else None
    failing = ts[fault["target"]]["name"] if fault else None
    bad = []
    order = [k for k in sc.get("ops", []) if k < len(ts)]

    def attempt(at, where):
        out = os.path.join(ctx.dir(where), "out.h5")

        def fn():
            lines = None
            if fault:
                lines = seams.Lines(at, fault["exc"])
                seams.in_observation(lines, failing)
            if sc["mode"] == "pipeline":
                ops.pipeline(xml, csv, out, full_contrib=sc["full"])
                got = None
            else:
                got = _api(sc, order, xml, csv, os.path.dirname(out))
            return (lines.found() if lines else None), got

        return ctx.universe(fn)

    at = None
    if fault:
        r = attempt(None, "dry")
        if not r.ok:
            return dict(violations=["the run without fault ended with %s: %s" % (r.get("exc") or r.status, r.get("msg"))], sig="x")
        n = len(r.value[0])
        at = int(fault["frac"] * n) if n else None
        if at is None:
            return dict(violations=[], nontrivial=False, sig="no line")
    r = attempt(at, "out")
    out = os.path.join(ctx.dir("out"), "out.h5")
    if not r.ok:
        return dict(violations=["the run ended with %s: %s" % (r.get("exc") or r.status, r.get("msg"))], sig="x")
    if sc["mode"] == "pipeline":
        h5, tab, err = ops.read_out(out)
        if err:
            return dict(violations=["output unreadable: " + err], sig="x")
        want = {k: g for k, g in golden.items() if not (k == failing and k not in h5.get("targets", {}))}
        bad = ops.compare_saved(h5, tab, want, "in the list")
    else:
        for step, (name, path) in enumerate(r.value[1]):
            if path is None:
                if name != failing and not name.startswith("bad"):
                    bad.append("observation %d: target %s was not observed" % (step, name))
                continue
            if name.startswith("bad"):
                continue
            h5, tab, err = ops.read_out(path)
            if err:
                bad.append("output unreadable: " + err)
                continue
            bad += ops.compare_saved(h5, tab, {name: golden[name]}, "observation %d" % step)
    fired = r.stats.get("fired_line", "")
    return dict(violations=bad, sig=worlds.key(p, ts, order, sc["bad"], fired), note="fault at %s" % fired if fired else "no fault")


def _api(sc, order, xml, csv, outdir):
    """Observes in the given order, on one build; each result is saved alone."""
    from exorad.tasks import LoadTargetList, ObserveTargetlist

    built = ops.build(xml)
    payload, channels, wl = built
    seq = []
    for k in order:
        seq.append(LoadTargetList()(target_list=csv).target[k])
    for pos, kind in sc["bad"]:
        t = dict(sc["targets"][0], name="bad%d" % pos, bad=kind)
        seq.insert(min(pos, len(seq)), worlds.api_target(t))
    res = []
    if sc["via"] == "list":
        # several lists of distinct names, on the same channels
        groups = []
        for t in seq:
            for g in groups:
                if all(str(x.name) != str(t.name) for x in g):
                    g.append(t)
                    break
            else:
                groups.append([t])
        for g in groups:
            got = ObserveTargetlist()(targets=g, payload=payload, channels=channels, wl_range=wl, plot=False, out_dir=None, n_thread=1, debug=False)
            got = {str(n): x for n, x in got.items()}
            for t in g:
                res.append((str(t.name), got.get(str(t.name))))
    else:
        for t in seq:
            try:
                res.append((str(t.name), ops.observe(t, built)))
            except Exception:
                res.append((str(t.name), None))
    out = []
    for i, (name, t) in enumerate(res):
        if t is None:
            out.append((name, None))
            continue
        path = os.path.join(outdir, "o%02d.h5" % i)
        ops.save_targets([t], path)
        out.append((name, path))
    return out
