"""C08: observing again, or repeating a step, changes nothing."""
from sim import core, ops, seams, worlds

PLAN = dict(
    quick=56, thorough=1500,
    rule="one scenario = a history of one target: complete observations with one or two payloads, observations that fail at any line, step by step observations with repeated steps; after each complete one the "
         "target is compared with a fresh one; non-trivial when something was repeated; a signature names the world and the history",
    assumptions=["a fresh target observed once in a pristine process is the reference", "repeating the preparation empties the table by definition: it is repeated before the other steps only"],
    stub="2D convolution looked up by content",
    technique="deterministic simulation: seeded histories of a target with half-way failures at any line, against a fresh target in a pristine process")

STEPS = ["prepare", "foregrounds", "frglight", "source", "light", "max", "noise"]


def generate(rng, i, tier):
    n = rng.choice([1, 2, 2])
    ps = [worlds.gen_payload(rng, max_ch=2) for _ in range(n)]
    t = worlds.gen_targets(rng, 1)[0]
    ev = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        kind = rng.choice(["observe", "fail", "fail"])
        k = rng.randrange(n)
        ev.append(dict(do=kind, payload=k) if kind == "observe" else dict(do="fail", payload=k, frac=round(rng.random(), 5), exc=rng.choice(["SimFault", "KeyboardInterrupt", "RuntimeError"])))
    last = rng.choice(["observe", "steps", "steps"])
    if last == "observe":
        ev.append(dict(do="observe", payload=0))
        for _ in range(rng.choice([0, 1, 2, 3])):
            ev.append(dict(do="step", step=rng.choice(STEPS[1:])))
    else:
        seq = []
        for s in STEPS:
            seq += [s] * rng.choice([1, 1, 1, 2, 3])
            if s != "prepare" and rng.random() < 0.25:
                # an earlier one once more
                seq.append(rng.choice(STEPS[1 : STEPS.index(s) + 1]))
        ev.append(dict(do="observe", payload=0))
        ev.append(dict(do="steps", steps=seq))
    return dict(payloads=ps, targets=[t], events=ev, fresh=rng.random() < 0.5, copies=rng.choice(["", "", "table", "deepcopy", "pickle"]))


def golden(ctx, p, t):
    def make():
        tag = "m" + worlds.key(p, t)[:12]
        xml, csv = ctx.payload(p, tag + ".xml"), ctx.targets([t], tag + ".csv")

        def fn():
            from exorad.tasks import LoadTargetList

            built = ops.build(xml)
            return ops.canon_target(ops.observe(LoadTargetList()(target_list=csv).target[0], built))

        r = ctx.universe(fn)
        if not r.ok:
            raise core.Broken("golden observation failed: %s %s" % (r.exc, r.tb))
        return r.value

    return ctx._cached("m" + worlds.key(p, t), make)


def run(sc, ctx):
    ps, t = sc["payloads"], sc["targets"][0]
    gold = [golden(ctx, p, t) for p in ps]
    xmls = [ctx.payload(p, "payload%d.xml" % k) for k, p in enumerate(ps)]
    csv = ctx.targets([t])

    def story(at):
        from exorad.tasks import LoadTargetList

        built = [ops.build(x) for x in xmls]
        target = LoadTargetList()(target_list=csv).target[0]
        states, found = [], []
        lastp = None
        for n, e in enumerate(sc["events"]):
            if e["do"] == "observe":
                lastp = e["payload"]
                target = ops.observe(target, built[lastp])
                states.append((n, lastp, ops.canon_target(target)))
                target = _copy(target, sc["copies"])
            elif e["do"] == "fail":
                lines = seams.Lines(at[n] if at else None, e["exc"])
                lines.start()
                try:
                    ops.observe(target, built[e["payload"]])
                    lastp = e["payload"] if not at else lastp
                except BaseException as x:
                    if at is None or lines.fired is None:
                        raise
                finally:
                    lines.stop()
                found.append((n, len(lines.found())))
                lastp = None
            elif e["do"] == "step":
                if lastp is None:
                    continue
                target = _step(e["step"], target, built[lastp])
                states.append((n, lastp, ops.canon_target(target)))
            else:
                if lastp is None:
                    continue
                if sc["fresh"]:
                    target = LoadTargetList()(target_list=csv).target[0]
                for s in e["steps"]:
                    target = _step(s, target, built[lastp])
                states.append((n, lastp, ops.canon_target(target)))
        return states, found

    at = None
    if any(e["do"] == "fail" for e in sc["events"]):
        r = ctx.universe(lambda: story(None)[1])
        if not r.ok:
            return dict(violations=["the history without fault ended with %s: %s" % (r.exc or r.status, r.msg)], sig="x")
        at = {n: int(sc["events"][n]["frac"] * c) for n, c in r.value}
    r = ctx.universe(lambda: story(at)[0])
    if not r.ok:
        return dict(violations=["the history ended with %s: %s" % (r.exc or r.status, r.msg)], sig="x")
    bad = []
    for n, k, state in r.value:
        d = core.diff(gold[k], state, 1e-9, "target")
        if d:
            bad.append("after event %d (%s): %s" % (n, sc["events"][n]["do"] + " " + str(sc["events"][n].get("step", "")), d))
            break
    return dict(violations=bad, nontrivial=len(r.value) > 0 and len(sc["events"]) > 1, sig=worlds.key(sc, at and sorted(at.items())), note="%d states compared, %s" % (len(r.value), r.stats.get("fired_line") or "no fault"))


def _copy(target, how):
    import copy
    import pickle

    if how == "deepcopy":
        return copy.deepcopy(target)
    if how == "pickle":
        return pickle.loads(pickle.dumps(target))
    if how == "table":
        target.table = target.table.copy()
    return target


def _step(name, target, built):
    from exorad import tasks

    payload, channels, wl = built
    if name == "prepare":
        return tasks.PrepareTarget()(target=target, channels=channels)
    if name == "foregrounds":
        if "foreground" not in payload["common"]:
            return target
        return tasks.EstimateForegrounds()(foregrounds=payload["common"]["foreground"], target=target, wl_range=wl)
    if name == "frglight":
        if "foreground" not in payload["common"]:
            return target
        return tasks.PropagateForegroundLight()(channels=channels, target=target)
    if name == "source":
        return tasks.LoadSource()(target=target, source=payload["common"]["sourceSpectrum"], wl_range=wl)[0]
    if name == "light":
        return tasks.PropagateTargetLight()(channels=channels, target=target)
    if name == "max":
        return tasks.EstimateMaxSignal()(target=target)
    return tasks.EstimateNoise()(target=target, channels=channels)
