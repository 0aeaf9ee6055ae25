"""C09: restarting from a saved payload gives the results of the original payload."""
import os

import numpy as np

from sim import core, ops, seams, worlds

PLAN = dict(
    quick=56, thorough=1500,
    rule="one scenario = a payload saved in an output file (alone or with targets), then used as the payload of one to four later observations, in the same and in other processes, with other payloads in "
         "between and disk faults while it is read; non-trivial when a saved payload was loaded and observed; a signature names the world and the history",
    assumptions=["targets observed alone with the original payload in a pristine process are the reference", "channels come back in the order of the file: rows are compared channel by channel"],
    stub="system calls on the saved file (LD_PRELOAD), 2D convolution looked up by content",
    technique="deterministic simulation: seeded save and restart histories with read faults, against the original payload in a pristine process")


def generate(rng, i, tier):
    p = worlds.gen_payload(rng)
    o = worlds.gen_payload(rng, max_ch=2)
    ts = worlds.gen_targets(rng, rng.choice([1, 2, 2, 3]))
    ev = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        ev.append(rng.choice(["load", "load", "load", "other", "badread", "shortread", "pipeline", "append", "full"]))
    if not set(ev) & {"load", "pipeline", "append"}:
        ev.append("load")
    return dict(payloads=[p, o], targets=ts, events=ev, same=rng.random() < 0.5, by=rng.choice(["payload", "pipeline"]), ext=rng.choice([".h5", ".hdf5"]), frac=round(rng.random(), 4),
                once=rng.random() < 0.4)


def run(sc, ctx):
    p, o = sc["payloads"]
    ts = sc["targets"]
    golden = ctx.golden_targets(p, ts)
    fullg = ctx.golden_targets(p, ts, True) if "full" in sc["events"] else None
    xml, oxml, csv = ctx.payload(p), ctx.payload(o, "other.xml"), ctx.targets(ts)
    saved = os.path.join(ctx.dir("in/saved"), "saved" + sc["ext"])

    def save():
        """The payload is saved, and what is saved reads back as computed."""
        if sc["by"] == "payload":
            payload, channels, wl = ops.build(xml, saved)
        else:
            ops.pipeline(xml, csv, saved)
            payload, channels, wl = ops.build(xml)
        return {k: core.canon(channels[k].table) for k in channels}

    results = []

    def events(evs, dry=None):
        from exorad.tasks import LoadTargetList

        built = None
        for n, e in evs:
            if e == "other":
                b = ops.build(oxml)
                ops.observe(LoadTargetList()(target_list=csv).target[0], b)
            elif e in ("badread", "shortread"):
                rule = dict(ops=["read"], sub="saved" + sc["ext"], action="err" if e == "badread" else "short", err="EIO", count=1 if e == "badread" else 100000, nth=1 + int(sc["frac"] * 60), arg=30)
                try:
                    seams.with_disk(os.path.dirname(saved), [rule], lambda: ops.build(saved))
                except OSError:
                    if e == "shortread":
                        raise
                except Exception:
                    if e == "shortread":
                        raise
            elif e in ("pipeline", "full", "append"):
                out = saved if e == "append" and sc["by"] == "payload" and not any(r[1] == "append" for r in results) else os.path.join(ctx.dir("out%d" % n), "out.h5")
                ops.pipeline(saved, csv, out, replace=out != saved, full_contrib=e == "full")
                results.append((n, e, core.read_tables(out), None))
            else:
                if built is None or not sc["once"]:
                    built = ops.build(saved)
                obs = {}
                for t in LoadTargetList()(target_list=csv).target:
                    x = ops.observe(t, built)
                    obs[str(t.name)] = core.canon(x.table)
                path = os.path.join(ctx.dir("out%d" % n), "o.h5")
                keep = [ops.observe(t, built) for t in LoadTargetList()(target_list=csv).target]
                ops.save_targets(keep, path)
                results.append((n, e, core.read_tables(path), obs))
        return results

    evs = list(enumerate(sc["events"]))
    bad = []
    if sc["same"]:
        r = ctx.universe(lambda: (save(), events(evs)))
        if r.ok:
            tabs, res = r.value
    else:
        r = ctx.universe(save)
        if r.ok:
            tabs, res = r.value, []
            # each event in a process of its own, now and then several in one
            groups = []
            for e in evs:
                if groups and (e[0] * 7 + len(ts)) % 2:
                    groups[-1].append(e)
                else:
                    groups.append([e])
            for g in groups:
                del results[:]
                for x in res:
                    if x[1] == "append":
                        results.append((0, "append", None, None))
                u = ctx.universe(lambda: events(g))
                if not u.ok:
                    r = u
                    break
                res += [x for x in u.value if x[2] is not None]
    if not r.ok:
        return dict(violations=["%s: the history ended with %s: %s" % (sc["events"], r.exc or r.status, r.msg)], sig="x")
    bad += _saved_tables(saved, tabs)
    for n, e, tables, obs in res:
        want = fullg if e == "full" else golden
        bad += ops.compare_tables(tables, want, "event %d (%s)" % (n, e), meta=False)
        if obs is not None:
            for name in obs:
                d = core.diff(ops.by_channel(obs[name]), ops.by_channel(tables[name]), 1e-12, "table of " + name, ("#meta",))
                if d:
                    bad.append("event %d: the saved table is not the one computed: %s" % (n, d))
        if bad:
            break
    return dict(violations=bad, nontrivial=bool(res), sig=worlds.key(sc), note="%d restarts compared" % len(res))


def _saved_tables(path, tabs):
    """The channel tables, as documented, against the computed ones."""
    import h5py
    from astropy.io.misc.hdf5 import read_table_hdf5

    bad = []
    with h5py.File(path, "r") as f:
        for k, t in tabs.items():
            got = core.canon(read_table_hdf5(f["payload"]["channels"][k], path=k))
            d = core.diff(t["#table"], got["#table"], 1e-12, "saved table of channel " + k)
            if d:
                bad.append(d)
    return bad
