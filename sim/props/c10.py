"""C10: a payload's results do not depend on what the process did before."""
import os

from sim import core, executor, ops, seams, worlds
from sim.props.c08 import golden as golden_target

PLAN = dict(
    quick=64, thorough=1300,
    rule="one scenario = an interleaving of reading, building, observing and failing to read two or three payloads (other resolutions, directories, sources, foregrounds) in one process, by shared or separate task "
         "objects; every description, saved payload and observation is compared with the one of a pristine process; non-trivial when at least two payloads were used; a signature names the history",
    assumptions=["a payload read, built and observed alone in a pristine process is the reference"],
    stub="system calls on the input files (LD_PRELOAD), 2D convolution looked up by content",
    technique="deterministic simulation: seeded interleavings of several payloads in one process with failing reads, against pristine processes")


def generate(rng, i, tier):
    n = rng.choice([2, 2, 3])
    ps = []
    for k in range(n):
        p = worlds.gen_payload(rng, max_ch=2)
        p["R"] = rng.choice([90, 120, 150, 180]) if rng.random() < 0.9 else None
        if ps and rng.random() < 0.5:
            # almost the same one: what leaks is seen
            p = dict(ps[0], R=rng.choice([90, 120, 150, 180]) if rng.random() < 0.5 else ps[0]["R"])
            p[rng.choice(["cfg", "cfg", "src", "frg", "force", "nx"])] = None
            p.update(cfg=p["cfg"] or ("in2" if ps[0]["cfg"] == "in" else "in"), src=p["src"] or rng.choice(["planck", "custom", "phoenix"]), force=p["force"] if p["force"] is not None else not ps[0]["force"])
            if p["frg"] is None:
                p["frg"] = rng.choice([[], ["skyB"], ["zodi"], ["skyA", "zodi"]])
        ps.append(p)
    ts = worlds.gen_targets(rng, 2)
    ev = []
    for _ in range(rng.choice([4, 5, 6, 8])):
        k = rng.randrange(n)
        do = rng.choice(["build", "build", "observe", "observe", "observe", "read", "read", "dict", "bad", "diskbad", "diskbad", "save", "list", "parallel"])
        e = dict(do=do, payload=k)
        if do in ("observe",):
            e["target"] = rng.randrange(2)
        if do in ("read", "bad", "diskbad", "build"):
            e["shared"] = rng.random() < 0.6
        if do == "bad":
            e["how"] = rng.choice(["missing", "malformed", "nofile", "badclass"])
        if do == "diskbad":
            e["frac"] = round(rng.random(), 3)
        ev.append(e)
        if do in ("bad", "diskbad") and rng.random() < 0.7:
            # the reading that failed is done again
            ev.append(dict(do="read", payload=k, shared=e["shared"]))
        if rng.random() < 0.3:
            # the same files, with another content each time
            what = rng.choice(["read", "save", "observe", None])
            for _ in range(rng.choice([1, 2, 2])):
                ev.append(dict(do="reuse", what=what or rng.choice(["read", "save", "observe"]), payload=rng.randrange(n), shared=rng.random() < 0.5, target=rng.randrange(2), same_time=rng.random() < 0.5))
    return dict(payloads=ps, targets=ts, events=ev, relative=rng.random() < 0.5)


def golden_description(ctx, p):
    def make():
        xml = ctx.payload(p, "d" + worlds.key(p)[:12] + ".xml")

        def fn():
            from exorad.tasks import LoadOptions

            return core.canon(LoadOptions()(filename=xml))

        r = ctx.universe(fn)
        if not r.ok:
            raise core.Broken("golden description failed: %s" % r.tb)
        return ops.strip_roots(r.value, ctx.root)

    return ctx._cached("d" + worlds.key(p), make)


def run(sc, ctx):
    ps, ts = sc["payloads"], sc["targets"]
    used = sorted({e["payload"] for e in sc["events"]})
    gt = {(k, j): golden_target(ctx, ps[k], ts[j]) for k in used for j in range(len(ts))}
    gd = {k: golden_description(ctx, ps[k]) for k in used}
    gp = {k: ctx.golden_payload(ps[k]) for k in used}
    xmls = {k: ctx.payload(ps[k], "payload%d.xml" % k) for k in used}
    bads = {k: _broken(ctx, ps[k], k) for k in used}
    csvs = [ctx.targets([t], "t%d.csv" % j) for j, t in enumerate(ts)]
    both = ctx.targets(ts, "all.csv")
    outs = ctx.dir("out")
    if sc.get("relative"):
        # the files are named from where the process is
        def rel(x):
            return os.path.relpath(x, ctx.root)

        xmls, bads = {k: rel(x) for k, x in xmls.items()}, {k: {q: rel(x) for q, x in b.items()} for k, b in bads.items()}
        csvs, both, outs = [rel(x) for x in csvs], rel(both), rel(outs)

    def story():
        from exorad.tasks import LoadOptions, LoadTargetList, ObserveTargetlist, PreparePayload

        os.chdir(ctx.root)
        shared_load, shared_prepare = LoadOptions(), PreparePayload()
        built, dicts, out = {}, {}, []

        def built_of(k):
            if k not in built:
                built[k] = ops.build(xmls[k])
            return built[k]

        for n, e in enumerate(sc["events"]):
            k, do = e["payload"], e["do"]
            if do == "read":
                d = (shared_load if e["shared"] else LoadOptions())(filename=xmls[k])
                dicts[k] = d
                out.append((n, "description", k, core.canon(d)))
            elif do == "build":
                built[k] = (shared_prepare if e["shared"] else PreparePayload())(payload_file=xmls[k], output=None)
            elif do == "dict":
                if k not in dicts:
                    dicts[k] = shared_load(filename=xmls[k])
                built[k] = PreparePayload()(payload_file=dicts[k], output=None)
            elif do == "bad":
                try:
                    if e["shared"]:
                        shared_load(filename=bads[k][e["how"]])
                    else:
                        PreparePayload()(payload_file=bads[k][e["how"]], output=None)
                except Exception:
                    core.bump("fault:bad_description")
            elif do == "diskbad":
                rule = dict(ops=["read", "open"], sub="", action="err", err="EIO", count=1, nth=1 + int(e["frac"] * 8))
                try:
                    seams.with_disk(os.path.join(ctx.root, ps[k]["cfg"]), [rule], lambda: shared_load(filename=xmls[k]) if e["shared"] else PreparePayload()(payload_file=xmls[k], output=None))
                except Exception:
                    pass
            elif do == "save":
                path = os.path.join(outs, "o%02d.h5" % n)
                built[k] = PreparePayload()(payload_file=xmls[k], output=path)
                out.append((n, "saved payload", k, core.dump_h5(path)["payload"]))
            elif do == "reuse":
                xml = _reused(ctx, ps[k], xmls[k], e["same_time"])
                if e["what"] == "read":
                    out.append((n, "description", k, core.canon((shared_load if e["shared"] else LoadOptions())(filename=xml))))
                elif e["what"] == "save":
                    path = os.path.join(outs, "reused.h5")
                    if os.path.exists(path):
                        os.remove(path)
                    (shared_prepare if e["shared"] else PreparePayload())(payload_file=xml, output=path)
                    out.append((n, "saved payload", k, core.dump_h5(path)["payload"]))
                else:
                    b = (shared_prepare if e["shared"] else PreparePayload())(payload_file=xml, output=None)
                    out.append((n, "target", (k, e["target"]), ops.canon_target(ops.observe(LoadTargetList()(target_list=csvs[e["target"]]).target[0], b))))
                core.bump("reused_files")
            elif do == "observe":
                b = built_of(k)
                before = core.digest([core.canon(b[0]), {c: [core.canon(b[1][c].table), core.canon(b[1][c].built_instr), core.canon(b[1][c].description)] for c in b[1]}])
                t = ops.observe(LoadTargetList()(target_list=csvs[e["target"]]).target[0], b)
                out.append((n, "target", (k, e["target"]), ops.canon_target(t)))
                after = core.digest([core.canon(b[0]), {c: [core.canon(b[1][c].table), core.canon(b[1][c].built_instr), core.canon(b[1][c].description)] for c in b[1]}])
                out.append((n, "unchanged", k, before == after))
            else:
                b = built_of(k)
                if do == "parallel":
                    executor.activate(dict(seed=n, start="spawn" if n % 2 else "fork", prefork=3))
                got = ObserveTargetlist()(targets=LoadTargetList()(target_list=both).target, payload=b[0], channels=b[1], wl_range=b[2], plot=False, out_dir=None, n_thread=2 if do == "parallel" else 1, debug=False)
                if do == "parallel":
                    executor.finish()
                    executor.S = None
                got = {str(name): x for name, x in got.items()}
                for j, t in enumerate(ts):
                    out.append((n, "target", (k, j), ops.canon_target(got[t["name"]]) if t["name"] in got else None))
        return out

    r = ctx.universe(story)
    if not r.ok:
        return dict(violations=["the history ended with %s: %s" % (r.exc or r.status, r.msg)], sig="x")
    bad = []
    for n, kind, k, got in r.value:
        what = "event %d: %s of payload %s" % (n, kind, k)
        if kind == "unchanged":
            if not got:
                bad.append("event %d: observing changed payload %d" % (n, k))
            continue
        want = gt[k] if kind == "target" else gd[k] if kind == "description" else gp[k]
        got = ops.strip_roots(got, os.path.join(ctx.root, "cur/"), os.path.join(ctx.root, ps[k[0] if kind == "target" else k]["cfg"]) + "/")
        got = ops.strip_roots(got, os.path.join(ctx.root, "cur"), os.path.join(ctx.root, ps[k[0] if kind == "target" else k]["cfg"]))
        d = core.diff(want, ops.strip_roots(got, ctx.root), 1e-9, "")
        if d:
            bad.append("%s: %s" % (what, d))
            break
    return dict(violations=bad, nontrivial=len(used) > 1 and len(r.value) > 0, sig=worlds.key(sc), note="%d results compared" % len(r.value))


def _reused(ctx, p, xml, same_time):
    """Files whose names are always the same, with the content of payload p."""
    cur, cfg = os.path.join(ctx.root, "cur"), os.path.join(ctx.root, p["cfg"])
    path = os.path.join(os.path.dirname(xml), "reused.xml")
    ops.rm_rf(cur)
    ops.copy_dir(cfg, cur)
    for n in ("phx", "psfs", "pixels"):
        if os.path.isdir(os.path.join(cfg, n)):
            ops.copy_dir(os.path.join(cfg, n), os.path.join(cur, n))
    with open(xml) as f:
        text = f.read()
    with open(path, "w") as f:
        f.write(text.replace("<ConfigPath> %s\n" % cfg, "<ConfigPath> %s\n" % cur))
    if same_time:
        # coarse time stamps
        for d, _, names in os.walk(cur):
            for x in names:
                os.utime(os.path.join(d, x), (1.7e9, 1.7e9))
        os.utime(path, (1.7e9, 1.7e9))
    return path


def _broken(ctx, p, k):
    """Descriptions whose reading fails, after part of it has been read."""
    q = dict(p, cfg="in2" if p["cfg"] == "in" else "in", R=333)
    path = ctx.payload(q, "broken%d.xml" % k)
    with open(path) as f:
        text = f.read()
    out = dict(nofile=os.path.join(ctx.root, "in", "nothing.xml"))

    def put(how, s):
        out[how] = os.path.join(ctx.root, "in", "broken%d_%s.xml" % (k, how))
        with open(out[how], "w") as f:
            f.write(s)

    cut = text.rindex("<channel>")
    put("malformed", text[: cut + 40])
    put("missing", text[:cut] + text[cut:].replace("QE.csv", "nothing.csv").replace("<qe unit=\"\">0.55</qe>", "<qe unit=\"\">\n<datafile>__ConfigPath__/nothing.csv</datafile></qe>").replace(
        "<qe unit=\"\">0.6</qe>", "<qe unit=\"\">\n<datafile>__ConfigPath__/nothing.csv</datafile></qe>"))
    put("badclass", text[:cut] + text[cut:].replace("Photometer", "Thing").replace("Spectrometer", "Thing"))
    return out
