"""C04: a normal return means that every result is in the output."""
import os

from sim import core, ops, seams, worlds

PLAN = dict(
    quick=88, thorough=2500, level="exploration",
    rule="one scenario = one run (the whole pipeline, or payload and targets saved one by one) with an output file, during which the disk fails: error, permanent error, full disk, short or interrupted "
         "operation at a position drawn over all the operations of the run, or one of the calls into the container library reports an error instead of storing; non-trivial when a fault fired; a signature names the world, the operation, its position and the fault",
    assumptions=["targets observed alone and payloads saved in a pristine process are the reference", "errors are reported by the system calls (open, write, truncate, close, unlink, mkdir, copy, read)",
                 "a process killed by a signal did not return normally"],
    stub="system calls on the output directory (LD_PRELOAD), 2D convolution looked up by content",
    technique="deterministic simulation of the disk: seeded errors, full disk, short and interrupted operations at any system call of the run")


def generate(rng, i, tier):
    p = worlds.gen_payload(rng, max_ch=2)
    n = rng.choice([1, 1, 2, 3])
    ts = worlds.gen_targets(rng, n)
    mode = rng.choice(["pipeline", "pipeline", "api"])
    sc = dict(payload=p, targets=ts, mode=mode, old=rng.choice([None, None, "other"]), plot=rng.random() < 0.06, restart=mode == "pipeline" and rng.random() < 0.15, subdir=rng.random() < 0.3,
              faults=[seams.gen_disk_rule(rng)])
    if sc["old"]:
        sc["oldt"] = worlds.gen_targets(rng, 1)
    if rng.random() < 0.2:
        sc["faults"].append(seams.gen_disk_rule(rng))
    if rng.random() < 0.4:
        # where the last of the data reach the disk
        r = sc["faults"][0]
        if r["ops"] == ["write"]:
            r.update(action=rng.choice(["sticky", "sticky", "err"]), err=rng.choice(["EIO", "ENOSPC"]), frac=round(1 - 0.2 * rng.random() ** 2, 5), count=rng.choice([2, 5, 20]))
    if rng.random() < 0.35:
        sc["faults"] = []
        sc["call"] = dict(frac=round(rng.random(), 5), exc=rng.choice(["OSError", "OSError", "RuntimeError", "ValueError", "ValueError", "TypeError", "MemoryError"]), count=rng.choice([1, 1, 1, 2, 10]), end=rng.random() < 0.35)
    return sc


def run(sc, ctx):
    p, ts = sc["payload"], sc["targets"]
    golden = ctx.golden_targets(p, ts)
    gp = ctx.golden_payload(p)
    xml, csv = ctx.payload(p), ctx.targets(ts)
    src = xml
    if sc["restart"]:
        src = os.path.join(ctx.dir("in"), "saved.h5")
        r = ctx.universe(lambda: ops.build(xml, src) and None)
        if not r.ok:
            raise core.Broken("no saved payload: %s" % r.get("tb"))

    def attempt(where, rules, dry, at=None):
        d = ctx.dir(where)
        out = os.path.join(d, "sub", "out.h5") if sc["subdir"] and sc["mode"] == "pipeline" and not sc["old"] else os.path.join(d, "out.h5")
        if sc["old"]:
            ocsv = ctx.targets(sc["oldt"], "old.csv")
            o = ctx.universe(lambda: ops.pipeline(xml, ocsv, out))
            if not o.ok:
                raise core.Broken("no old output: %s" % o.get("tb"))

        def body():
            if sc["mode"] == "pipeline":
                ops.pipeline(src, csv, out, plot=sc["plot"])
                return
            from exorad.tasks import LoadTargetList

            if os.path.exists(out):
                os.remove(out)
            built = ops.build(xml, out)
            for t in LoadTargetList()(target_list=csv).target:
                ops.save_targets([ops.observe(t, built)], out)

        def fn():
            if not sc.get("call"):
                return seams.with_disk(d, rules, body, dry)[1]
            calls = seams.H5Calls(at, sc["call"]["exc"], sc["call"]["count"])
            calls.start()
            body()
            return calls.n, calls.ends

        return ctx.universe(fn), out

    r, out = attempt("dry", sc["faults"], True)
    if not r.ok:
        return dict(violations=["the run without fault ended with %s: %s" % (r.get("exc") or r.status, r.get("msg"))], sig="x")
    if sc.get("call"):
        n, ends = r.value
        rules = ends[int(sc["call"]["frac"] * len(ends))] if sc["call"]["end"] and ends else int(sc["call"]["frac"] * n)
        r, out = attempt("out", [], False, rules)
    else:
        rules = seams.resolve_disk(sc["faults"], r.value, os.path.getsize(out))
        r, out = attempt("out", rules, False)
    fired = sum(v for k, v in r.stats.items() if k.startswith("fault:")) if r.stats else 1
    sig = worlds.key(p, ts, sc["mode"], rules, sc.get("call"))
    note = "%s %s" % (r.exc or r.status, sorted(r.stats or {}))
    bad = []
    if r.status == "hang":
        bad.append("the run does not end: %s" % r.msg)
    if r.ok:
        h5, tab, err = ops.read_out(out) if os.path.exists(out) else (None, None, "no output file")
        if err:
            bad.append("the run ended normally, and its output cannot be read: %s" % err)
        else:
            if not sc["restart"]:
                d = core.diff(gp, ops.strip_roots(h5.get("payload"), ctx.root), 1e-9, "payload")
                if d:
                    bad.append("the run ended normally, and the saved payload is not the one built: " + d)
            skipped = ops.skipped(r["console"], list(golden))
            want = {k: g for k, g in golden.items() if k not in skipped}
            bad += ops.compare_saved(h5, tab, want, "the run ended normally") if not sc["restart"] else _tables(tab, want)
    return dict(violations=bad, nontrivial=fired > 0, sig=sig, note=note)


def _tables(tab, want):
    """Channels of a saved payload come back in the order of the file."""
    return ["target %s is not in the output" % k for k in want if k not in tab]
