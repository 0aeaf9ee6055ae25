"""C05: results already saved survive what happens later in the run."""
import os

from sim import core, ops, seams, worlds

PLAN = dict(
    quick=64, thorough=2000,
    rule="one scenario = payload and targets saved one after the other, and something that goes wrong later: a transient disk error or an exception or an interrupt at any line while a later target is "
         "observed or saved, an impossible value, the death of the process between two savings, as the next target is about to be saved or while it is observed; non-trivial when it happened after at least one saving was complete",
    assumptions=["targets observed alone and payloads saved in a pristine process are the reference", "a saving is complete when the output object has been closed without an error",
                 "process death and permanent disk failures inside an update of the container are excluded (HDF5 gives no guarantee there)"],
    stub="system calls on the output directory (LD_PRELOAD), 2D convolution looked up by content",
    technique="deterministic simulation: seeded crash points, transient disk errors and exceptions after completed savings")


def generate(rng, i, tier):
    p = worlds.gen_payload(rng, max_ch=2)
    n = rng.choice([2, 2, 3, 4])
    ts = worlds.gen_targets(rng, n)
    mode = rng.choice(["api", "api", "pipeline"])
    sc = dict(payload=p, targets=ts, mode=mode, go_on=rng.random() < 0.6, oneout=False)
    kind = rng.choice(["disk", "disk", "disk", "line", "line", "value"] + (["death", "death", "bad"] if mode == "api" else ["open_death", "write_death", "write_death", "obs_death"]))
    ev = dict(kind=kind, target=rng.randrange(0 if kind != "value" else 1, n))
    if kind == "disk":
        rule = seams.gen_disk_rule(rng)
        while rule["action"] in ("sticky", "quota") or rule["ops"][0] in ("unlink", "mkdir", "copy", "open"):
            rule = seams.gen_disk_rule(rng)
        if rule["action"] != "short":
            rule["count"] = 1
        ev["rule"] = rule
    elif kind == "line":
        ev.update(frac=round(rng.random(), 5), exc=rng.choice(["SimFault", "KeyboardInterrupt", "MemoryError", "SystemExit", "OSError"]), scope=rng.choice(["save", "save", "all"]))
    elif kind == "value":
        ev["value"] = rng.choice(["object", "set", "none", "function"])
    elif kind == "death":
        ev["when"] = rng.choice(["before", "observed", "after"])
    elif kind == "open_death":
        ev["frac"] = round(rng.random(), 4)
    elif kind == "bad":
        ev["bad"] = rng.choice(["noTeff", "unitless", "noD", "wrongunit"])
    sc["event"] = ev
    return sc


IMPOSSIBLE = dict(object=object, set=lambda: {1, 2}, none=lambda: {"a": None}, function=lambda: [object(), 1])


def run(sc, ctx):
    p, ts, ev = sc["payload"], sc["targets"], dict(sc["event"])
    ev["target"] = min(ev["target"], len(ts) - 1)
    golden = ctx.golden_targets(p, ts)
    gp = ctx.golden_payload(p)
    xml, csv = ctx.payload(p), ctx.targets(ts)
    prog = os.path.join(ctx.root, "progress")

    def attempt(where, plan):
        """plan None: a dry run counting the chances of the event."""
        d = ctx.dir(where)
        out = os.path.join(d, "out.h5")

        def fn():
            if sc["mode"] == "api":
                return _api(sc, ev, xml, csv, out, plan, prog if plan else None)
            return _pipeline(sc, ev, xml, csv, out, plan, prog if plan else None)

        return ctx.universe(fn), out

    dry = None
    if ev["kind"] in ("disk", "line", "open_death"):
        r, _ = attempt("dry", None)
        if not r.ok or r.value["error"]:
            return dict(violations=["the run without fault ended with %s %s" % (r.get("exc") or r.status, r.get("msg") or r.value["error"])], sig="x")
        dry = r.value
    plan = dict(ev)
    if ev["kind"] == "disk":
        got = seams.resolve_disk([ev["rule"]], dry["seen"])
        plan["rules"] = got
    elif ev["kind"] == "line":
        plan["at"] = int(ev["frac"] * dry["lines"]) if dry["lines"] else 0
    elif ev["kind"] == "open_death":
        plan["nth"] = 1 + int(ev["frac"] * dry["seen"][0]) if dry["seen"][0] else 1
    r, out = attempt("out", plan)
    done = ops.read_progress(prog)
    if r.status == "crash" and ev["kind"] not in ("death", "open_death", "write_death", "obs_death"):
        return dict(violations=[], nontrivial=False, sig="crash", note="the process was killed by the container library")
    bad = []
    if r.status == "hang":
        bad.append("the run does not end")
    h5, tab, err = ops.read_out(out) if os.path.exists(out) else (None, None, "no file")
    if done and err:
        bad.append("%s were saved, and then the output cannot be read: %s" % (done, err))
    elif done:
        if "payload" in done:
            d = core.diff(gp, ops.strip_roots(h5.get("payload"), ctx.root), 1e-9, "payload")
            if d:
                bad.append("the payload was saved, and then: " + d)
        want = {k: g for k, g in golden.items() if "target " + k in done}
        bad += ops.compare_saved(h5, tab, want, "saved before, and then")
    fired = sum(v for k, v in r.stats.items() if k.startswith("fault:")) if r.stats else int(ev["kind"] in ("death", "open_death", "write_death", "obs_death"))
    return dict(violations=bad, nontrivial=bool(done and fired), sig=worlds.key(p, ts, plan, sc["go_on"], r.stats.get("fired_line")),
                note="%s: %d savings complete, %s %s" % (ev["kind"], len(done), r.exc or r.status, r.stats.get("fired_line") or ""))


def _api(sc, ev, xml, csv, out, plan, prog):
    from exorad.tasks import LoadTargetList

    lines = None
    seen = None
    error = None
    built = ops.build(xml, out)
    if prog:
        ops.progress(prog, "payload")
    for i, t in enumerate(LoadTargetList()(target_list=csv).target):
        hit = i == ev["target"]
        name = str(t.name)

        def step():
            nonlocal lines
            x = t
            if hit and plan and ev["kind"] == "death" and ev["when"] == "before":
                os._exit(core.KILL_CODE)
            if hit and ev["kind"] == "bad":
                x = worlds.api_target(dict(sc["targets"][i], name=name, bad=ev["bad"]))
                core.bump("fault:bad_target")
            if hit and ev["kind"] == "line":
                lines = seams.Lines(plan["at"] if plan else None, ev["exc"])
                if ev["scope"] == "all":
                    lines.start()
            x = ops.observe(x, built)
            if hit and ev["kind"] == "value" and plan:
                x.star.odd = IMPOSSIBLE[ev["value"]]()
                core.bump("fault:impossible_value")
            if hit and plan and ev["kind"] == "death" and ev["when"] == "observed":
                os._exit(core.KILL_CODE)
            if lines:
                lines.start()
            ops.save_targets([x], out)

        try:
            if hit and ev["kind"] == "disk":
                _, seen = seams.with_disk(os.path.dirname(out), plan["rules"] if plan else [ev["rule"]], step, dry=plan is None)
            else:
                step()
            if prog:
                ops.progress(prog, "target " + name)
        except BaseException as e:
            error = "%s: %s" % (type(e).__name__, e)
            if not sc["go_on"]:
                break
        finally:
            if lines:
                lines.stop()
            if hit and plan is not None and ev["kind"] == "death" and ev["when"] == "after":
                os._exit(core.KILL_CODE)
    seams.disarm_all()
    ops.library_exit()
    return dict(error=error, seen=seen, lines=len(lines.found()) if lines else None)


def _pipeline(sc, ev, xml, csv, out, plan, prog):
    """The whole pipeline; a saving is noted when the target has been written
    and the file is not open any more."""
    from exorad.models.target import Target
    from exorad.output.hdf5 import HDF5Output

    written = []
    orig_write, orig_exit = Target.write, HDF5Output.__exit__
    count = [0]
    lines = seams.Lines(plan["at"] if plan else None, ev["exc"]) if ev["kind"] == "line" else None
    seen = [None]

    def die():
        """Death while the next target is about to be saved, or is observed: all
        that went through the saving before has to be there."""
        if os.path.exists(out):
            have = ops.read_progress(prog)
            for x in ["payload"] + ["target " + n for n in written]:
                if x not in have:
                    ops.progress(prog, x)
        os._exit(core.KILL_CODE)

    def write(self, output):
        if plan and ev["kind"] == "write_death" and count[0] == ev["target"]:
            die()
        hit = count[0] == ev["target"]
        count[0] += 1
        if hit and ev["kind"] == "value" and plan:
            self.star.odd = IMPOSSIBLE[ev["value"]]()
            core.bump("fault:impossible_value")
        if hit and ev["kind"] == "disk":
            if plan:
                seams.arm_disk(os.path.dirname(out), plan["rules"])
            else:
                seams.dry_disk(os.path.dirname(out), [ev["rule"]])
        if hit and lines:
            lines.start()
        res = orig_write(self, output)
        written.append(str(self.name))
        return res

    def leave(self, *a):
        res = orig_exit(self, *a)
        if prog:
            if count[0] == 0 and a[0] is None:
                ops.progress(prog, "payload")
            while written:
                ops.progress(prog, "target " + written.pop(0))
        return res

    Target.write, HDF5Output.__exit__ = write, leave
    if plan and ev["kind"] == "obs_death":
        from exorad.tasks import task as task_module

        real_call = task_module.Task.__call__

        def call(self, **kwargs):
            if type(self).__name__ == "ObserveTarget":
                if seen[0] == ev["target"]:
                    die()
                seen[0] = (seen[0] or 0) + 1
            return real_call(self, **kwargs)

        seen[0] = 0
        task_module.Task.__call__ = call
    if ev["kind"] == "open_death":
        rule = dict(ops=["creat"], sub="out.h5", action="kill", err=None)
        if plan:
            seams.arm_disk(os.path.dirname(out), [dict(rule, nth=plan["nth"])])
        else:
            seams.dry_disk(os.path.dirname(out), [rule])
    if lines and ev["scope"] == "all":
        lines.start()
    error = None
    try:
        ops.pipeline(xml, csv, out)
    except BaseException as e:
        error = "%s: %s" % (type(e).__name__, e)
    sysn = seams.seen_disk(1) if ev["kind"] in ("disk", "open_death") else None
    for h in seams.disarm_disk():
        if h and plan:
            core.bump("fault:disk", h)
    seams.disarm_all()
    ops.library_exit()
    return dict(error=error, seen=sysn, lines=len(lines.found()) if lines else None)
