"""C17: a read error never turns into wrong numbers."""
import glob
import gzip
import os
import random

from sim import core, executor, ops, seams, worlds

PLAN = dict(
    quick=96, thorough=3500,
    rule="one scenario = one run (from a description or a saved payload) (or one use of the plotting tool on its result) with one input file missing, empty, cut short (where its format can tell), refused or failing at a seeded read, or a saved payload "
         "whose saving was interrupted, or reads that are short or interrupted and then go on; whatever is saved must be what a pristine run gives, the rest must be reported; non-trivial when the fault met "
         "the run; a signature names the world, the file and the fault",
    assumptions=["a target observed alone in a pristine process is the reference; for an unreadable zodiacal map, with the factor of the description",
                 "text tables cut at the end of a row cannot be told from shorter ones and are excluded, as are stellar models removed one by one"],
    stub="system calls on the input files (LD_PRELOAD), 2D convolution looked up by content",
    technique="deterministic simulation: seeded read faults on every input file, against results and figures of pristine processes")


# the data files of the less usual parts of a description, the channel that reads them
EXTRA = {"elements": ("element.csv", None), "circled": ("circled.csv", "S"), "resolution": ("resolution.dat", "S"), "psf": ("psf.fits", None), "psfs": ("psfs", None), "pixels": ("pixels", None), "paos": ("paos.h5", None)}


def generate(rng, i, tier):
    p = worlds.gen_payload(rng, max_ch=2)
    if rng.random() < 0.6:
        p["src"] = rng.choice(["phoenix", "phoenix", "custom"])
    if rng.random() < 0.4 and not {"zodi", "zmap"} & set(p["frg"]):
        p["frg"] = ["zmap"] + p["frg"][:1]
    ts = worlds.gen_targets(rng, rng.choice([1, 2, 2, 3]))
    if "zmap" in p["frg"] and rng.random() < 0.8:
        for t in ts:
            t["ra"], t["dec"] = rng.choice(worlds.POINTINGS)
    sc = dict(payload=p, targets=ts, src=rng.choice(["xml", "xml", "saved"]), workers=rng.choice([1, 1, 1, 1, 2]), seed=rng.randrange(10**9))
    files = ["payload.xml", "targets.csv", "QE.csv"]
    if set("ST") & set(p["chs"]):
        files += ["wlsol"]
    files += {"custom": ["sed.csv"] * 2, "phoenix": ["phx"] * 3}.get(p["src"], [])
    if "zmap" in p["frg"]:
        files += ["zodimap.hdf5"] * 3
    if rng.random() < 0.4:
        p["x"] = sorted(set(p["x"]) | {rng.choice(list(EXTRA))})
    files += [f + (".pickle" if "pickle" in p["x"] else ".csv") for f in p["frg"] if f.startswith("sky")]
    for x in p["x"]:
        if x in EXTRA and (EXTRA[x][1] is None or EXTRA[x][1] in p["chs"]):
            files += [EXTRA[x][0]] * 3
    if sc["src"] == "saved":
        files = [f for f in files if f in ("targets.csv", "sed.csv", "phx", "zodimap.hdf5")] + ["saved.h5"] * 3
    sc["tool"] = rng.random() < 0.12
    f = "results.h5" if sc["tool"] else rng.choice(files)
    kinds = ["missing", "empty", "open", "read", "read", "read", "transparent"]
    if f in ("phx", "zodimap.hdf5", "saved.h5"):
        kinds += ["cut", "cut", "garbage"]
    if f in ("psf.fits", "psfs", "pixels", "paos.h5") or f.endswith(".pickle"):
        kinds += ["cut", "cut"]
    if f in ("psfs", "pixels"):
        kinds += ["nodir"]
    if f in ("phx",):
        kinds += ["inner", "nodir"]
    if f == "zodimap.hdf5":
        kinds += ["notable", "nocolumn"]
    if f == "results.h5":
        sc.update(targets=ts[:2], workers=1)
        kinds += ["cut", "cut", "notable"]
    if f == "saved.h5":
        kinds += ["interrupted"] * 6
    k = rng.choice(kinds)
    fault = dict(file=f, kind=k, frac=round(rng.random(), 4))
    if k in ("open", "read"):
        fault.update(err=rng.choice(["EIO", "EACCES", "EMFILE"] if k == "open" else ["EIO", "EIO", "EACCES"]), sticky=rng.random() < 0.4)
        if k == "read":
            fault["sweep"] = 24 if tier == "quick" else 120
        if k == "read" and rng.random() < 0.6:
            # part of the file has been read when it fails
            fault["pieces"] = rng.choice([40, 100, 300, 1000])
    elif k == "transparent":
        fault.update(how=rng.choice(["short", "pieces", "EINTR"]), arg=rng.choice([1, 30, 90]))
        if fault["how"] == "pieces":
            fault["arg"] = rng.choice([40, 100, 300, 1000])
    elif k == "interrupted":
        fault.update(exc=rng.choice(["KeyboardInterrupt", "SimFault", "disk"]))
    sc["fault"] = fault
    if sc["src"] == "xml" and rng.random() < 0.5:
        # besides, one file of the payload after the other cannot be had
        sc["each"] = dict(op=rng.choice(["open", "open", "read"]), err=rng.choice(["EIO", "EACCES"]), seed=rng.randrange(10**6))
    return sc


def run(sc, ctx):
    p, ts, f = sc["payload"], sc["targets"], sc["fault"]
    if sc.get("tool"):
        return run_tool(sc, ctx)
    golden = ctx.golden_targets(p, ts)
    fallback = {}
    if f["file"] == "zodimap.hdf5" and "zmap" in p["frg"]:
        q = dict(p, frg=["zodi" if x == "zmap" else x for x in p["frg"]])
        fallback = ctx.golden_targets(q, ts)
    xml, csv = ctx.payload(p), ctx.targets(ts)
    src = xml
    if sc["src"] == "saved":
        src = os.path.join(ctx.dir("in"), "saved.h5")
        cut = _save(ctx, xml, src, f)
        if not os.path.exists(src):
            return dict(violations=[], nontrivial=False, sig="nothing saved")
    sub, met = _damage(sc, ctx, xml, csv, src)
    met = met or (sc["src"] == "saved" and cut)
    rules = _rules(f, sub)

    def attempt(where, rules, dry):
        out = os.path.join(ctx.dir(where), "out.h5")

        def fn():
            if sc["workers"] > 1:
                executor.activate(dict(seed=sc["seed"], start="fork"))
            try:
                return seams.with_disk(ctx.root, rules, lambda: ops.pipeline(src, csv, out, n_thread=sc["workers"]), dry)[1]
            finally:
                if executor.S is not None:
                    executor.finish()

        return ctx.universe(fn), out

    if rules:
        w = sc["workers"]
        sc = dict(sc, workers=1)
        d, _ = attempt("dry", rules, True)
        sc = dict(sc, workers=w)
        if not d.ok:
            return dict(violations=["the run without fault ended with %s: %s" % (d.exc or d.status, d.msg)], sig="x")
        rules = seams.resolve_disk(rules, d.value)
    r, out = attempt("out", rules, False)
    fired = met or _fired(f, r)
    # faults met in the workers are not counted here
    fired = fired or (sc["workers"] > 1 and f["kind"] in ("open", "read"))
    what = "%s %s (%s)" % (f["file"], f["kind"], f.get("err") or f.get("how") or f.get("exc") or "")
    bad = _sweep(sc, ctx, src, rules, sc["src"] == "saved") if f["kind"] == "read" and rules else []
    if sc.get("each"):
        bad += _each(sc, ctx)
    if r.status in ("hang", "crash"):
        bad.append("%s: the run %s" % (what, "does not end" if r.status == "hang" else "crashed"))
    note = "%s: %s" % (what, r.exc or r.status)
    if os.path.exists(out) or r.ok:
        h5, tab, err = ops.read_out(out) if os.path.exists(out) else (None, {}, None)
        if err is None:
            for name, t in (tab or {}).items():
                if isinstance(t, str):
                    continue  # its saving failed, and so did the run
                d = ops.compare_tables({name: t}, {name: golden[name]}, what, rtol=1e-6)
                if d and name in fallback and fired and f["kind"] != "transparent":
                    d = ops.compare_tables({name: t}, {name: fallback[name]}, what, rtol=1e-6)
                    if not d and not any("zod" in line.lower() and ("not found" in line or "fail" in line or "factor" in line) for line in r["console"].splitlines()):
                        d = ["%s: the zodiacal factor is used and nothing says so" % what]
                    note += ", fallback"
                bad += d
        # an empty list has no target
        if r.ok and (f["file"], f["kind"]) != ("targets.csv", "empty"):
            names = [t["name"] for t in ts]
            skipped = ops.skipped(r["console"], names)
            saved = [] if err else list(tab or {})
            for n in names:
                if n not in saved and n not in skipped:
                    bad.append("%s: the run ended normally, target %s is neither saved nor reported" % (what, n))
            if skipped:
                note += ", skipped %d" % len(skipped)
            if skipped and (f["kind"] == "transparent" or not fired or f["file"] == "zodimap.hdf5"):
                bad.append("%s: targets %s skipped" % (what, skipped))
    if not r.ok and not bad:
        if f["kind"] == "transparent" or not fired:
            bad.append("%s: the run ended with %s: %s" % (what, r.exc or r.status, r.msg))
        elif f["file"] == "zodimap.hdf5":
            bad.append("%s: the run ended with %s instead of using the zodiacal factor" % (what, r.exc or r.status))
    return dict(violations=bad, nontrivial=bool(fired), sig=worlds.key(p, f, sc["src"]), note=note)


def _sweep(sc, ctx, src, rules, saved):
    """The payload alone, read with the fault at one position after the other:
    each reading fails or gives what the reading without fault gives."""
    plan = [dict(r) for r in rules]
    n = sc["fault"].get("sweep", 25) // (1 if saved else 4)

    def fn():
        def look():
            pl, ch, wl = ops.build(src)
            return core.digest([core.canon(pl), core.canon(wl), {c: [core.canon(ch[c].table), core.canon(ch[c].built_instr), core.canon(ch[c].description)] for c in ch}])

        want, seen = seams.with_disk(ctx.root, plan, look, True)
        if not seen[-1]:
            return []
        out = []
        step = max(seen[-1] / n, 1.0)
        at = sc["fault"]["frac"] * step
        while at < seen[-1]:
            now = [dict(r) for r in plan]
            now[-1]["nth"] = 1 + int(at)
            try:
                got = seams.with_disk(ctx.root, now, look)[0]
                if got != want:
                    out.append((int(at), seen[-1]))
            except Exception:
                pass
            core.bump("readings")
            at += step
        return out

    r = ctx.universe(fn)
    what = "reading the payload, %s %s (%s)" % (sc["fault"]["file"], sc["fault"]["kind"], sc["fault"].get("err"))
    if not r.ok:
        return ["%s: ended with %s: %s" % (what, r.exc or r.status, r.msg)]
    return ["%s at the read %d of %d gives another payload" % (what, a, b) for a, b in r.value[:3]]


def _look(src):
    pl, ch, wl = ops.build(src)
    return core.digest([core.canon(pl), core.canon(wl), {c: [core.canon(ch[c].table), core.canon(ch[c].built_instr), core.canon(ch[c].description)] for c in ch}])


def _each(sc, ctx):
    """The payload alone, undamaged: with any one of its files out of reach it
    is not built, or it is the same (nothing that could not be read is left out)."""
    e = sc["each"]
    where = dict(sc["payload"], cfg="each")
    xml = ctx.payload(where, "each.xml")
    files = sorted(x for x in core.tree(ctx.dir("each")))
    random.Random(e["seed"]).shuffle(files)
    few = files[:16]

    def fn():
        want = _look(xml)
        out = []
        for x in few:
            rule = [dict(ops=[e["op"]], sub=os.path.join("each", x), action="sticky", err=e["err"], count=1, nth=1)]
            try:
                if seams.with_disk(ctx.root, rule, lambda: _look(xml))[0] != want:
                    out.append(x)
            except Exception:
                pass
            core.bump("files_withheld")
        return out

    r = ctx.universe(fn)
    if not r.ok:
        return ["building the payload ended with %s: %s" % (r.exc or r.status, r.msg)]
    return ["without %s (%s at %s) another payload is built" % (x, e["err"], e["op"]) for x in r.value[:3]]


def _rules(f, sub):
    """What the reads of the file meet."""
    pieces = [dict(ops=["read"], sub=sub, action="chunk", count=10**9, arg=f.get("pieces") or f.get("arg"))]
    if f["kind"] in ("open", "read"):
        return (pieces if f.get("pieces") else []) + [dict(ops=[f["kind"]], sub=sub, action="sticky" if f["sticky"] else "err", err=f["err"], count=1, frac=f["frac"])]
    if f["kind"] == "transparent":
        return dict(
            pieces=pieces,
            short=[dict(ops=["read"], sub=sub, action="short", count=100000, arg=f["arg"], frac=0.0)],
            EINTR=[dict(ops=["read"], sub=sub, action="err", err="EINTR", count=1, frac=f["frac"])],
        )[f["how"]]
    return []


def _fired(f, r):
    return sum(v for q, v in (r.stats or {}).items() if q.startswith("fault:") and (f["kind"] == "transparent" or not q.endswith("_chunk"))) > 0


def run_tool(sc, ctx):
    """The plotting tool on a result that cannot be read: it draws what is saved
    or ends with an error."""
    import h5py

    p, ts, f = sc["payload"], sc["targets"], sc["fault"]
    xml, csv = ctx.payload(p), ctx.targets(ts)
    res = os.path.join(ctx.dir("in"), "results.h5")
    figs = {}

    def first():
        ops.pipeline(xml, csv, res)
        ops.plot_tool(res, ctx.dir("good"))

    r = ctx.universe(first)
    if not r.ok:
        raise core.Broken("no results: %s" % r.get("tb"))
    for t in ts:
        figs[t["name"]] = os.path.join(ctx.dir("good"), t["name"] + ".png")
    rel, met = "in/results.h5", True
    with open(res, "rb") as g:
        data = g.read()
    if f["kind"] == "missing":
        os.remove(res)
    elif f["kind"] in ("empty", "cut"):
        with open(res, "wb") as g:
            g.write(data[: int(len(data) * f["frac"])] if f["kind"] == "cut" else b"")
    elif f["kind"] == "notable":
        with h5py.File(res, "r+") as g:
            x = g["targets"][ts[-1]["name"]]["table"]
            del x["table"]
    else:
        met = False
    rules = _rules(f, rel)
    if rules:
        d = ctx.universe(lambda: seams.with_disk(ctx.root, rules, lambda: ops.plot_tool(res, ctx.dir("dry")), True)[1])
        if not d.ok:
            return dict(violations=["the plotting tool without fault ended with %s: %s" % (d.exc or d.status, d.msg)], sig="x")
        rules = seams.resolve_disk(rules, d.value)
    o = ctx.dir("out")
    r = ctx.universe(lambda: seams.with_disk(ctx.root, rules, lambda: ops.plot_tool(res, o))[0])
    fired = met or _fired(f, r)
    what = "plotting tool, %s %s (%s)" % (f["file"], f["kind"], f.get("err") or f.get("how") or "")
    bad = []
    if r.status in ("hang", "crash"):
        bad.append("%s: it %s" % (what, "does not end" if r.status == "hang" else "crashed"))
    for n, ref in figs.items():
        got = os.path.join(o, n + ".png")
        if not os.path.exists(got):
            if r.ok:
                bad.append("%s: it ended normally without the figure of %s" % (what, n))
        else:
            d = ops.figures_differ(ref, got)
            if d:
                bad.append("%s: the figure of %s %s" % (what, n, d))
    if not r.ok and not bad and (f["kind"] == "transparent" or not fired):
        bad.append("%s: it ended with %s: %s" % (what, r.exc or r.status, r.msg))
    return dict(violations=bad, nontrivial=bool(fired), sig=worlds.key(p, f, "tool"), note="%s: %s" % (what, r.exc or r.status))


def _save(ctx, xml, path, f):
    """The saved payload; tells whether its saving was interrupted."""
    if f["kind"] != "interrupted":
        r = ctx.universe(lambda: ops.build(xml, path) and None)
        if not r.ok:
            raise core.Broken("no saved payload: %s" % r.get("tb"))
        return False
    d = os.path.dirname(path)

    def dry():
        rule = [dict(ops=["write"], sub="saved.h5", action="err", err="ENOSPC", count=1)]
        lines = seams.Lines(None)
        lines.start()
        _, seen = seams.with_disk(d, rule, lambda: ops.build(xml, path) and None, True)
        lines.stop()
        return len(lines.found()), lines.found(), seen[0]

    r = ctx.universe(dry)
    if not r.ok:
        raise core.Broken("no saved payload: %s" % r.get("tb"))
    os.remove(path)
    n, counts, writes = r.value
    # the saving comes last
    at = int((0.5 + 0.5 * f["frac"]) * n)

    def cut():
        if f["exc"] == "disk":
            # the medium fills up, and is then made free again
            rule = [dict(ops=["write"], sub="saved.h5", action="err", err="ENOSPC", count=1, nth=1 + int(f["frac"] * writes))]
            return seams.with_disk(d, rule, lambda: ops.build(xml, path) and None)
        nth = 1 + int((f["frac"] * 997) % 1 * counts[at])
        lines = seams.Lines(at, f["exc"], nth)
        lines.start()
        try:
            return ops.build(xml, path) and None
        finally:
            lines.stop()
            core.bump("fault:interrupted_saving", 1 if lines.fired else 0)

    return not ctx.universe(cut).ok


def _damage(sc, ctx, xml, csv, src):
    """Damages the file at rest; returns the path the faults look for, and
    whether the run is sure to meet the damage."""
    f, p = sc["fault"], sc["payload"]
    cfg = os.path.join(ctx.root, p["cfg"])
    name, kind = f["file"], f["kind"]
    path = {"payload.xml": xml, "targets.csv": csv, "saved.h5": src}.get(name)
    if name == "wlsol":
        path = sorted(glob.glob(os.path.join(cfg, "wlsol*.csv")))[0]
    elif name in ("phx", "psfs", "pixels"):
        path = os.path.join(cfg, name)
    elif path is None:
        path = os.path.join(cfg, name)
    rel = os.path.relpath(path, ctx.root)
    many = sorted(glob.glob(os.path.join(path, "*"))) if name in ("phx", "psfs", "pixels") else [path]
    if not os.path.exists(path):
        return rel, False
    if kind == "missing" or kind == "nodir":
        for x in many:
            os.remove(x)
        if kind == "nodir":
            os.rmdir(path)
    elif kind in ("empty", "cut", "garbage", "inner"):
        for x in many:
            with open(x, "rb") as g:
                data = g.read()
            if kind == "inner":
                raw = gzip.decompress(data)
                data = gzip.compress(raw[: int(len(raw) * f["frac"])], mtime=0)
            elif kind == "garbage":
                k = int(f["frac"] * (len(data) // 2))
                data = bytes((b * 7 + 13 + j) % 256 for j, b in enumerate(data[: max(k, 600)])) + data[max(k, 600):]
            else:
                data = b"" if kind == "empty" else data[: int(len(data) * f["frac"])]
            with open(x, "wb") as g:
                g.write(data)
    elif kind in ("notable", "nocolumn"):
        import numpy as np
        from astropy.io.misc.hdf5 import write_table_hdf5
        from astropy.table import Table

        import h5py

        os.remove(path)
        if kind == "notable":
            with h5py.File(path, "w") as g:
                g["x"] = 1
        else:
            write_table_hdf5(Table(np.array(worlds.ZODI_ROWS)[:, :2], names=["ra_icrs", "dec_icrs"]), path, path="table")
    else:
        return rel, False
    ctx.stats["fault:at_rest_" + kind] = ctx.stats.get("fault:at_rest_" + kind, 0) + 1
    return rel, True
