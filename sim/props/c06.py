"""C06: replacing leaves nothing of the old output; appending leaves all of it."""
import os

from sim import core, ops, seams, worlds

PLAN = dict(
    quick=40, thorough=1500,
    rule="one scenario = a history of two to four runs on the same output path, replacing or appending, from a description or from a saved payload, some failing (disk errors, exceptions, death for the "
         "replacing ones); non-trivial when at least one run found an older output; a signature names the history",
    assumptions=["targets observed alone and payloads saved in a pristine process are the reference", "appending runs meet transient errors only: a permanent failure inside an update of the container is excluded"],
    stub="system calls on the output directory (LD_PRELOAD), 2D convolution looked up by content",
    technique="deterministic simulation: seeded histories of runs on one output with disk faults and crashes, against a model of the file content")


def generate(rng, i, tier):
    ps = [worlds.gen_payload(rng, max_ch=2) for _ in range(2)]
    pool = worlds.gen_targets(rng, 6)
    runs = []
    for k in range(rng.choice([2, 2, 3, 4])):
        how = "replace" if k == 0 or rng.random() < 0.5 else "append"
        src = rng.choice(["xml", "xml", "apart"] if k == 0 else ["xml", "apart", "self", "samename"] if how == "append" else ["xml", "xml", "apart", "samename"])
        # a file that is no output of this program may be in the way
        plant = rng.choice(["text", "half", "other", "other"]) if rng.random() < 0.15 else None
        r = dict(how=how, src=src, plant=plant, payload=rng.randrange(2), targets=sorted(rng.sample(range(6), rng.choice([1, 1, 2]))), same_dir=rng.random() < 0.3, fault=None, again=False)
        if k and rng.random() < 0.2:
            # a target that the file may already hold
            r["again"] = True
            r["targets"] = list(runs[-1]["targets"])
        if k and r["src"] == "xml" and rng.random() < 0.25:
            # a list of the same name and size as that of the run before, older than its copy
            r["twin"] = True
            if len(runs[-1]["targets"]) < 2:
                runs[-1]["targets"] = sorted(rng.sample(range(6), 2))
            r["targets"] = list(reversed(runs[-1]["targets"]))
            r["same_dir"] = False
        if rng.random() < 0.45:
            kind = rng.choice(["disk", "disk", "line"])
            if kind == "disk":
                rule = seams.gen_disk_rule(rng)
                if how == "append":
                    while rule["action"] in ("sticky", "quota") or rule["ops"][0] in ("mkdir", "copy"):
                        rule = seams.gen_disk_rule(rng)
                    rule["count"] = 1 if rule["action"] != "short" else rule["count"]
                elif rng.random() < 0.3:
                    rule.update(action=rng.choice(["kill", "torn"]) if rule["ops"] == ["write"] else "kill", arg=40)
                r["fault"] = dict(kind="disk", rule=rule)
            else:
                r["fault"] = dict(kind="line", frac=round(rng.random(), 5), exc=rng.choice(["SimFault", "KeyboardInterrupt", "OSError"]))
        runs.append(r)
    return dict(payloads=ps, pool=pool, runs=runs)


def run(sc, ctx):
    ps, pool = sc["payloads"], sc["pool"]
    d = ctx.dir("out")
    out = os.path.join(d, "out.h5")
    gps = {}
    xmls = {}
    saved = {}
    paths = {}
    for k in sorted({r["payload"] for r in sc["runs"]}):
        gps[k] = ctx.golden_payload(ps[k])
        xmls[k] = ctx.payload(ps[k], "payload%d.xml" % k)
    for step, r in enumerate(sc["runs"]):
        if r["src"] in ("apart", "samename"):
            # a payload saved before, under the name of the output in the second case
            path = os.path.join(ctx.dir("in/saved%d" % r["payload"]), "out.h5" if r["src"] == "samename" else "saved.h5")
            if path not in saved:
                x = xmls[r["payload"]]
                u = ctx.universe(lambda: ops.build(x, path) and None)
                if not u.ok:
                    raise core.Broken("no saved payload: %s" % u.get("tb"))
                saved[path] = core.sha(path)
            paths[step] = path
    bad = []
    found_old = 0
    held = {}  # model: what the file must hold; None: unknown content of a failed replacing run
    held_payload = None
    certain = True
    for step, r in enumerate(sc["runs"]):
        ts = [pool[k] for k in r["targets"]]
        names = [t["name"] for t in ts]
        if r.get("twin") and step:
            csv = ctx.targets(ts, os.path.join("older%d" % step, os.path.splitext(os.path.basename(csv))[0] + ".csv"))
            os.utime(csv, (1e9, 1e9))
        else:
            csv = ctx.targets(ts, "targets%d.csv" % step)
        foreign = None
        if r.get("plant"):
            _plant(out, r["plant"])
            if r["plant"] != "other":
                foreign = core.sha(out)
            held_payload, certain = None, True
        exists = os.path.exists(out)
        if r["src"] == "self":
            if not exists or held_payload is None or not certain:
                continue
            src, owner = out, held_payload
        else:
            src, owner = (xmls[r["payload"]] if r["src"] == "xml" else paths[step]), r["payload"]
        if r["same_dir"]:
            # the inputs already are in the output directory
            src2 = os.path.join(d, os.path.basename(src))
            if r["src"] == "xml":
                ops.copy_file(src, src2)
                src = src2
            ops.copy_file(csv, os.path.join(d, os.path.basename(csv)))
            csv = os.path.join(d, os.path.basename(csv))
        before = None
        if exists:
            found_old += 1
            before, _, err = ops.read_out(out)
            if err:
                before = None
        hashes = {x: core.sha(x) for x in {src, csv} if x != out}
        u = _attempt(ctx, r, src, csv, out, d)
        if u is None:
            continue
        what = "run %d (%s, from %s)" % (step, r["how"], r["src"])
        if u.status == "hang":
            bad.append(what + " does not end")
        h5, tab, err = ops.read_out(out) if os.path.exists(out) else (None, None, "no file")
        golden = ctx.golden_targets(ps[owner], ts)
        skipped = ops.skipped(u["console"], names)
        want = {k: g for k, g in golden.items() if k not in skipped}
        if err == "no file" and r["src"] != "xml" and not want:
            h5, tab, err = {}, {}, None  # every target was skipped: there was nothing to save
        if r["how"] == "replace":
            if u.ok:
                if err:
                    bad.append("%s ended normally and left no readable output: %s" % (what, err))
                    break
                if sorted(h5.get("targets", {})) != sorted(want):
                    bad.append("%s: the output holds targets %s, not %s" % (what, sorted(h5.get("targets", {})), sorted(want)))
                extra = set(h5) - {"info", "payload", "targets"}
                if extra:
                    bad.append("%s: the output also holds %s" % (what, sorted(extra)))
                if r["src"] == "xml":
                    bad += ops.compare_saved(h5, tab, want, what)
                    x = core.diff(gps[owner], ops.strip_roots(h5.get("payload"), ctx.root), 1e-9, "payload")
                    if x:
                        bad.append("%s: %s" % (what, x))
                    held_payload = owner
                else:
                    bad += ops.compare_tables(tab, want, what, rtol=1e-6)
                    if "payload" in h5:
                        bad.append("%s: the output holds a payload that this run did not save" % what)
                    held_payload = None
                certain = True
            else:
                # nothing of the old output is mixed with what this run wrote
                if h5 is not None and before is not None and u.status != "killed" and core.diff(before, h5, 0.0, "", ("info",)) is not None:
                    other = [n for n in h5.get("targets", {}) if n not in names]
                    if other:
                        bad.append("%s failed and the output holds older targets %s besides its own content" % (what, other))
                certain, held_payload = False, None
        else:
            if foreign is not None:
                if core.sha(out) != foreign:
                    bad.append("%s (%s): the output path held a file that is no container, and its bytes changed" % (what, u.exc or u.status))
                certain, held_payload = False, None
            elif before is not None:
                if err:
                    bad.append("%s (%s): what the file held cannot be read any more: %s" % (what, u.exc or u.status, err))
                    break
                x = _lost(before, h5)
                if x:
                    bad.append("%s (%s): what the file held changed: %s" % (what, u.exc or u.status, x))
            if u.ok and not err and foreign is None:
                if r["src"] == "xml":
                    bad += ops.compare_saved(h5, tab, want, what)
                else:
                    bad += ops.compare_tables(tab, want, what, rtol=1e-6)
            if before is None and not exists:
                held_payload = owner if r["src"] == "xml" and u.ok else None
        if u.ok and not r["same_dir"]:
            for x, h in hashes.items():
                c = os.path.join(d, os.path.basename(x))
                if c == out:
                    continue
                if not os.path.exists(c) or core.sha(c) != h:
                    bad.append("%s: no faithful copy of %s next to the output" % (what, os.path.basename(x)))
        if bad:
            break
    return dict(violations=bad, nontrivial=found_old > 0, sig=worlds.key(sc), note="%d runs, %d found an older output" % (len(sc["runs"]), found_old))


def _plant(out, kind):
    if kind == "text":
        with open(out, "w") as f:
            f.write("notes of another program\n" * 40)
        return
    import h5py

    with h5py.File(out, "w") as f:
        f.attrs["note"] = "another program"
        f.create_group("notes").attrs["kept"] = 3
        f["notes/values"] = list(range(3000))
    if kind == "half":
        os.truncate(out, os.path.getsize(out) // 2)


def _lost(old, new, path=""):
    """What the older content had and the newer has not."""
    for k, v in old.items():
        if path == "" and k == "info":
            continue
        if k not in new:
            return path + "/" + k + " is missing"
        if isinstance(v, dict) and isinstance(new[k], dict):
            x = _lost(v, new[k], path + "/" + k)
        else:
            x = core.diff(v, new[k], 0.0, path + "/" + k)
        if x:
            return x
    return None


def _attempt(ctx, r, src, csv, out, d):
    f = r["fault"]
    kw = dict(replace=r["how"] == "replace")

    def call():
        ops.pipeline(src, csv, out, **kw)

    if not f:
        def fn():
            try:
                call()
            finally:
                ops.library_exit()
        return ctx.universe(fn)
    # a dry run on a copy of the directory
    dd = ctx.dir("dry")
    ops.rm_rf(dd)
    ops.copy_dir(d, dd)
    dsrc = os.path.join(dd, os.path.basename(src)) if os.path.dirname(src) == d else src
    dcsv = os.path.join(dd, os.path.basename(csv)) if os.path.dirname(csv) == d else csv
    dout = os.path.join(dd, "out.h5")

    def dry():
        rules = [f["rule"]] if f["kind"] == "disk" else []
        seams.dry_disk(dd, rules)
        lines = seams.Lines(None)
        if f["kind"] == "line":
            lines.start()
        try:
            ops.pipeline(dsrc, dcsv, dout, **kw)
        except Exception:
            pass
        lines.stop()
        seen = seams.seen_disk(len(rules))
        seams.disarm_disk()
        return seen, len(lines.found())

    u = ctx.universe(dry)
    if not u.ok:
        raise core.Broken("dry run: %s %s" % (u.status, u.get("tb")))
    seen, n = u.value
    rules = seams.resolve_disk([f["rule"]], seen, os.path.getsize(dout) if os.path.exists(dout) else 0) if f["kind"] == "disk" else []

    def real():
        lines = seams.Lines(int(f["frac"] * n), f["exc"]) if f["kind"] == "line" else None

        def body():
            if lines:
                lines.start()
            try:
                call()
            finally:
                if lines:
                    lines.stop()

        try:
            seams.with_disk(d, rules, body)
        finally:
            ops.library_exit()

    return ctx.universe(real)
