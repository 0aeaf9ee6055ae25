"""C19: saved tables satisfy the noise and signal budget."""
import os

import numpy as np

from sim import core, executor, ops, seams, worlds

PLAN = dict(
    quick=72, thorough=3000,
    rule="one scenario = a history of two to five runs in one process, with one or two payloads: sequential, with workers, with full contributions, restarted from a saved payload, step by step with repeated "
         "steps, and with observations that fail at a line of the package or a lost worker; every table saved is checked; non-trivial when at least one table was saved after another run; a signature is the history",
    assumptions=["the parameters of the detectors and of the noises are those written in the generated description, the multiaccum gains those of the documentation"],
    stub="2D convolution looked up by content, process pools (simulated workers)",
    technique="deterministic simulation: seeded histories of runs with faults and schedules, budget invariants on every saved table")


def generate(rng, i, tier):
    ps = [worlds.gen_payload(rng, max_ch=2 if rng.random() < 0.8 else 3) for _ in range(rng.choice([1, 2, 2]))]
    for p in ps:
        p["ndr"] = rng.choice([0.0, 0.5, 5.0])
    pool = worlds.gen_targets(rng, 4)
    runs = []
    for k in range(rng.choice([2, 2, 3, 4, 5])):
        how = rng.choice(["seq", "seq", "par", "par", "full", "restart", "steps", "steps", "again"])
        r = dict(how=how, payload=rng.randrange(len(ps)), targets=sorted(rng.sample(range(4), rng.choice([1, 1, 2, 3]))), append=rng.random() < 0.3, fault=None)
        if rng.random() < 0.3:
            r["fault"] = dict(frac=round(rng.random(), 5), exc=rng.choice(["SimFault", "KeyboardInterrupt", "RuntimeError", "KeyError"]))
        if how in ("steps", "again"):
            r["repeat"] = [rng.choice(["max", "noise", "foregrounds", "frglight", "source", "light", "observe"]) for _ in range(rng.randrange(4))]
        if how == "par":
            r.update(workers=rng.choice([2, 2, 3]), start=rng.choice(["fork", "fork", "spawn"]), seed=rng.randrange(10**9))
        runs.append(r)
    return dict(payloads=ps, pool=pool, runs=runs)


def run(sc, ctx):
    ps, pool, runs = sc["payloads"], sc["pool"], sc["runs"]
    xmls = [ctx.payload(p, "payload%d.xml" % k) for k, p in enumerate(ps)]
    csvs = [ctx.targets([pool[j] for j in r["targets"]], "targets%d.csv" % k) for k, r in enumerate(runs)]

    def story(at, tag):
        from exorad.tasks import LoadTargetList

        d = ctx.dir(tag)
        outs, counts, last, held = [], [], None, {}
        saved = {}
        for k, r in enumerate(runs):
            out = os.path.join(d, "out%d.h5" % k)
            if r["append"] and last and r["how"] in ("restart", "steps", "again") and not held[last] & set(r["targets"]):
                out = last
            held.setdefault(out, set()).update(r["targets"])
            x, how = xmls[r["payload"]], r["how"]
            lines = seams.Lines(at[k] if at and r["fault"] else None, (r["fault"] or {}).get("exc", "SimFault")) if r["fault"] else None
            if how == "restart":
                saved.setdefault(r["payload"], os.path.join(d, "saved%d.h5" % r["payload"]))
                if not os.path.exists(saved[r["payload"]]):
                    ops.build(x, saved[r["payload"]])
                x = saved[r["payload"]]
            if lines:
                lines.start()
            try:
                if how in ("steps", "again"):
                    built = ops.build(x)
                    done = []
                    for t in LoadTargetList()(target_list=csvs[k]).target:
                        t = ops.observe(t, built)
                        for s in r["repeat"]:
                            t = _step(s, t, built)
                        done.append(t)
                    ops.save_targets(done, out)
                elif how == "par":
                    executor.S = None
                    executor.activate(dict(seed=r["seed"], start=r["start"]))
                    try:
                        ops.pipeline(x, csvs[k], out, n_thread=r["workers"])
                    finally:
                        executor.finish()
                else:
                    ops.pipeline(x, csvs[k], out, full_contrib=how == "full", replace=out != last)
                last = out
            except BaseException as e:  # noqa
                if lines is None or (at is not None and lines.fired is None and not isinstance(e, Exception)):
                    raise
                if not at:
                    raise
            finally:
                if lines:
                    lines.stop()
            counts.append(len(lines.found()) if lines else 0)
            outs.append((k, out))
        return outs, counts

    at = None
    if any(r["fault"] for r in runs):
        r = ctx.universe(lambda: story(None, "dry"))
        if not r.ok:
            return dict(violations=["the history without fault ended with %s: %s" % (r.exc or r.status, r.msg)], sig="x")
        at = [int(q["fault"]["frac"] * c) if q["fault"] else None for q, c in zip(runs, r.value[1])]
    r = ctx.universe(lambda: story(at, "out"))
    bad, n, seen = [], 0, set()
    if not r.ok:
        bad.append("the history ended with %s: %s" % (r.exc or r.status, r.msg))
        return dict(violations=bad, sig="x")
    owner = {}
    for k, out in r.value[0]:
        # whose payload the tables of this file come from
        for j in runs[k]["targets"]:
            owner.setdefault((out, pool[j]["name"]), set()).add(runs[k]["payload"])
    for out in sorted({o for _, o in r.value[0]}):
        if not os.path.exists(out):
            continue
        h5, tab, err = ops.read_out(out)
        if err:
            continue
        for name, t in sorted(tab.items()):
            if isinstance(t, str):
                continue
            what = "%s, target %s" % (os.path.basename(out), name)
            res = None
            for k in sorted(owner.get((out, name), ())):
                res = budget(ps[k], t)
                if not res:
                    break
            n += 1
            if res:
                bad += ["%s: %s" % (what, x) for x in res[:2]]
    return dict(violations=bad[:5], nontrivial=n > 0 and len(runs) > 1, sig=worlds.key(sc, at), note="%d tables of %d runs" % (n, len(runs)))


def _step(name, target, built):
    from sim.props import c08

    return ops.observe(target, built) if name == "observe" else c08._step(name, target, built)


def budget(p, table):
    """What the rows of a saved table must satisfy."""
    bad = []
    if "#table" not in table:
        return ["no table"]
    cols = {k: np.asarray(v["#c"]) for k, v in table["#table"].items()}
    names = np.array([x.decode() if isinstance(x, bytes) else str(x) for x in cols["chName"]])
    known = {worlds.ch_name(p, k): k for k in p["chs"]}
    if set(names) != set(known):
        return ["rows of channels %s" % sorted(set(names))]
    sigs = [k for k in cols if "signal" in k and not k.endswith("_noise") and cols[k].dtype.kind == "f"]
    maxs = [k for k in cols if "Max" in k and k != "MaxSignal_inPixel"]

    def near(a, b, what):
        a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
        ok = np.isclose(a, b, rtol=1e-8, atol=0.0) | (~np.isfinite(a) & ~np.isfinite(b)) | ((a == 0) & (b == 0))
        if not ok.all():
            j = int(np.argmin(ok))
            bad.append("%s: %r instead of %r" % (what, float(a[j]), float(b[j])))

    for ch, k in sorted(known.items()):
        row = names == ch
        c = {q: v[row] for q, v in cols.items()}
        total = sum(c[q] for q in maxs)
        near(c["MaxSignal_inPixel"], total, "%s: maximum signal is not the sum of %s" % (ch, ", ".join(maxs)))
        with np.errstate(all="ignore"):
            near(c["saturation_time"] * c["MaxSignal_inPixel"], 100000.0, "%s: saturation time times maximum signal" % ch)
        ft = p["ft"] if p.get("ft") else p["fwd"] * np.min(c["saturation_time"])
        near(c["frameTime"], ft, "%s: frame time" % ch)
        nread = max(np.floor(float(np.min(c["frameTime"])) * p["ndr"]), 2.0)
        rg = 12.0 * (nread - 1) / (nread * (nread + 1)) / (p.get("mm") or 1)
        sg = 6.0 * (nread**2 + 1) / (5.0 * nread * (nread + 1))
        # count/s * hr^0.5: variances in count/s over an hour
        hr = 3600.0
        dc = 1.0 if k in "AS" else 0.5
        near(c["darkcurrent_noise"] ** 2, sg * dc * c["WindowSize"] / hr, "%s: dark current noise" % ch)
        near(c["read_noise"] ** 2, rg * 225.0 * c["WindowSize"] / c["frameTime"] / hr, "%s: read noise" % ch)
        phot = np.zeros(row.sum())
        for q in sigs:
            if q + "_noise" not in c:
                bad.append("%s: no noise for %s" % (ch, q))
                continue
            near(c[q + "_noise"] ** 2, sg * c[q] / hr, "%s: noise of %s" % (ch, q))
            phot = phot + c[q + "_noise"] ** 2
        want = {}
        for j in range(p.get("cn", 0)):
            want["gain %d" % j] = (3 + j) * 1e-6
        for j in range(p.get("ccn", 0)):
            want["gain c%d" % j] = (20 + j) * 1e-6
        for q, v in want.items():
            if q + "_noise" not in c:
                bad.append("%s: custom noise %s missing" % (ch, q))
            else:
                near(c[q + "_noise"], v, "%s: custom noise %s" % (ch, q))
        star = np.where(c["star_signal_inAperture"] == 0, np.nan, c["star_signal_inAperture"])
        tot = (c["darkcurrent_noise"] ** 2 + c["read_noise"] ** 2 + (1 + (p.get("nx") or 0.0)) * phot) / star**2 + sum(v**2 for v in want.values())
        near(c["total_noise"] ** 2, tot, "%s: total noise" % ch)
    return bad
