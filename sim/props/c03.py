"""C03: a failing target is skipped, named, and harms nothing else."""
import os

from sim import core, executor, ops, seams, worlds

PLAN = dict(
    quick=56, thorough=1300,
    rule="one scenario = one generated payload and target list with one to three targets whose observation fails (an exception no code expects at the k-th line of the observation, an impossible "
         "target, a plot that fails), sequential or with simulated workers; non-trivial when a failure was actually met; a signature names the world and the failing lines",
    assumptions=["a target observed alone in a pristine process is the reference for the others",
                 "exceptions are raised at line starts of the package's own code (plus failing figure writes)"],
    technique="deterministic simulation: seeded exceptions at every line of a target's observation, against results of pristine processes")


def kinds(p):
    """Exceptions that no code on the way is meant to handle in this world."""
    out = ["SimFault", "MemoryError", "TypeError"]
    frg = p.get("frg") or []
    if not any(f[0] == "zmap" if isinstance(f, (list, tuple)) else "zmap" in str(f) for f in frg):
        out += ["RuntimeError", "OSError"]
        if p.get("src") != "phoenix":
            out.append("ValueError")
    return out


def generate(rng, i, tier):
    p = worlds.gen_payload(rng)
    n = rng.choice([1, 2, 3, 3, 4, 5])
    ts = worlds.gen_targets(rng, n)
    mode = rng.choice(["pipeline", "pipeline", "api"])
    sc = dict(payload=p, targets=ts, mode=mode, workers=rng.choice([1, 1, 1, 3]), plan=dict(seed=rng.randrange(10**9), start="fork"), plot=rng.random() < 0.12,
              full=mode == "pipeline" and rng.random() < 0.2, debug=rng.random() < 0.15, bad=[], faults=[], dup=None)
    idx = list(range(n))
    rng.shuffle(idx)
    for k in idx[: rng.choice([0, 1, 1, 1, 2, 3])]:
        if sc["plot"] and rng.random() < 0.5:
            sc["faults"].append(dict(target=k, kind="figure"))
        else:
            sc["faults"].append(dict(target=k, kind="line", frac=round(rng.random(), 4), exc=rng.choice(kinds(p))))
    failing = {f["target"] for f in sc["faults"]}
    rest = [k for k in range(n) if k not in failing]
    if rest and rng.random() < 0.25:
        sc["dup"] = rng.choice(rest)
    if mode == "api" and rng.random() < 0.7:
        for _ in range(rng.choice([1, 2])):
            sc["bad"].append([rng.randrange(n + 1), rng.choice(["noTeff", "unitless", "noD", "wrongunit", "nostar"])])
    return sc


def run(sc, ctx):
    p, ts = sc["payload"], sc["targets"]
    faults = [f for f in sc["faults"] if f["target"] < len(ts)]
    dup = sc["dup"] if sc["dup"] is not None and sc["dup"] < len(ts) else None
    golden = ctx.golden_targets(p, ts, sc["full"])
    rows = list(ts)
    if dup is not None:
        rows.insert(0, dict(ts[dup], Teff=ts[dup]["Teff"] + 200))
    xml, csv = ctx.payload(p), ctx.targets(rows)

    def attempt(where, ats):
        d = ctx.dir(where)
        out = os.path.join(d, "out.h5")

        def fn():
            lines = {}
            for i, f in enumerate(faults):
                if f["kind"] == "line":
                    lines[i] = seams.Lines(ats.get(i) if ats else None, f["exc"])
                    seams.in_observation(lines[i], ts[f["target"]]["name"])
                elif ats is not None:
                    seams.fail_figure(ts[f["target"]]["name"])
            if sc["workers"] > 1 and ats is not None:
                executor.activate(sc["plan"])
            w = sc["workers"] if ats is not None else 1
            if sc["mode"] == "pipeline":
                ops.pipeline(xml, csv, out, n_thread=w, plot=sc["plot"] and ats is not None, full_contrib=sc["full"], debug=sc["debug"])
                got = None
            else:
                got = _api(sc, xml, csv, d, w, ats is not None)
            if executor.S is not None:
                executor.finish()
            return got, {i: len(l.found()) for i, l in lines.items()}

        return ctx.universe(fn), out

    ats = {}
    if any(f["kind"] == "line" for f in faults):
        r, _ = attempt("dry", None)
        if not r.ok:
            return dict(violations=["the run without fault ended with %s: %s" % (r.get("exc") or r.status, r.get("msg"))], sig="x")
        ats = {i: int(faults[i]["frac"] * n) for i, n in r.value[1].items() if n}
    r, out = attempt("out", ats)
    if not r.ok:
        return dict(violations=["the run ended with %s: %s" % (r.get("exc") or r.status, r.get("msg"))], sig="x")
    bad = []
    failing = {ts[f["target"]]["name"] for f in faults}
    others = {k: g for k, g in golden.items() if k not in failing}
    con = r["console"]
    if sc["mode"] == "pipeline":
        h5, tab, err = ops.read_out(out)
        if err:
            return dict(violations=["output unreadable: " + err], sig="x")
        held = h5.get("targets", {})
        bad += ops.compare_saved(h5, tab, others, "beside the failing one")
    else:
        held = {}
        for name, path in r.value[0]:
            h, t, err = ops.read_out(path)
            if err:
                bad.append("output unreadable: " + err)
                continue
            held[name] = h["targets"][name]
            if name in others:
                bad += ops.compare_saved(h, t, {name: others[name]}, "beside the failing one")
        for name in others:
            if name not in held:
                bad.append("target %s was not observed" % name)
    unknown = set(held) - set(golden)
    if unknown:
        bad.append("targets that cannot be observed are in the output: %s" % sorted(unknown))
    warned = ops.skipped(con, list(golden) + ["bad%d" % b[0] for b in sc["bad"]])
    for name in others:
        if name in warned:
            bad.append("target %s is said to be skipped" % name)
    met = 0
    for f in faults:
        name = ts[f["target"]]["name"]
        if name in held:
            if core.diff(golden[name]["h5"], held[name], 1e-9, name, ops.IGNORE):
                bad.append("target %s failed and is in the output with another content: %s" % (name, core.diff(golden[name]["h5"], held[name], 1e-9, name, ops.IGNORE)))
        elif name not in warned:
            bad.append("target %s is missing and no warning names it" % name)
        else:
            met += 1
    for b in sc["bad"]:
        met += 1
        if "bad%d" % b[0] not in warned and "bad%d" % b[0] not in held:
            bad.append("target bad%d is missing and no warning names it" % b[0])
    if dup is not None:
        met += 1
        name = ts[dup]["name"]
        if not any("WARNING" in line and ops.word_in(name, line) for line in con.splitlines()):
            bad.append("target %s is listed twice and no warning says so" % name)
    return dict(violations=bad, nontrivial=met > 0, sig=worlds.key(p, ts, sc["bad"], sorted(ats.items()), dup, [f["kind"] for f in faults]),
                note="%d failures, skipped %s" % (met, warned))


def _api(sc, xml, csv, d, w, real):
    from exorad.tasks import LoadTargetList, ObserveTargetlist

    payload, channels, wl = ops.build(xml)
    targets = list(LoadTargetList()(target_list=csv).target)
    if real:
        for pos, kind in sc["bad"]:
            targets.insert(min(pos, len(targets)), worlds.api_target(dict(sc["targets"][0], name="bad%d" % pos, bad=kind)))
    got = ObserveTargetlist()(targets=targets, payload=payload, channels=channels, wl_range=wl, plot=sc["plot"] and real, out_dir=d, n_thread=w, debug=sc["debug"])
    out = []
    for i, k in enumerate(got):
        path = os.path.join(d, "o%02d.h5" % i)
        ops.save_targets([got[k]], path)
        out.append((str(k), path))
    return out
