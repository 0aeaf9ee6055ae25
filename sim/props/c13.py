"""C13: every message is logged exactly once and the user's verbosity is kept."""
import collections
import logging
import os

from sim import core, executor, ops, seams, worlds

PLAN = dict(
    quick=64, thorough=2000,
    rule="one scenario = a history of level changes, log files asked for (again, or failing to open), runs (debug or not, logged or not, sequential or with workers, with failing or interrupted targets); after "
         "each event messages of every level are sent, and counted on the console and in every log file, as are the ones of the package; non-trivial when at least one target was observed; a signature "
         "names the history",
    assumptions=["messages go through the loggers called exorad.*", "a disk that fails while a log file is being written is excluded"],
    stub="worker scheduling, system calls on the log directory (LD_PRELOAD), 2D convolution looked up by content",
    technique="deterministic simulation: seeded histories with failing and interrupted observations, against a model of the console level and of the log files")

LEVELS = [10, 15, 20, 25, 30, 40, 50]


def generate(rng, i, tier):
    p = worlds.gen_payload(rng, rich=False, max_ch=1)
    ts = worlds.gen_targets(rng, rng.choice([1, 1, 2]))
    ev = []
    for _ in range(rng.choice([2, 3, 4, 5])):
        do = rng.choice(["level", "level", "file", "file", "run", "run", "list", "list", "badfile", "single", "chdir"])
        e = dict(do=do)
        if do == "level":
            e["level"] = rng.choice(LEVELS)
        elif do in ("file", "badfile"):
            e.update(file=rng.randrange(3), dir=rng.randrange(2), how=rng.choice(["abs", "abs", "rel", "dot"]))
        elif do == "chdir":
            e["dir"] = rng.randrange(2)
        elif do in ("run", "list", "single"):
            e.update(debug=do != "single" and rng.random() < 0.3, fail=None, workers=1)
            if do == "run":
                e.update(log=rng.choice([None, None, 0, 1, "cwd"]), dir=rng.randrange(2), how=rng.choice(["abs", "abs", "rel"]))
            if rng.random() < 0.5:
                e["fail"] = dict(target=rng.randrange(len(ts)), frac=round(rng.random(), 4), exc=rng.choice(["SimFault", "SimFault", "RuntimeError", "KeyboardInterrupt", "SystemExit"]))
            elif rng.random() < 0.25 and do != "single":
                e["workers"] = 2
        ev.append(e)
        if do == "file" and rng.random() < 0.3:
            # the same name, said in another way or meaning another file
            if rng.random() < 0.5:
                ev.append(dict(do="chdir", dir=rng.randrange(2)))
            ev.append(dict(e, how=rng.choice(["abs", "rel", "dot"])))
    if not any(e["do"] in ("run", "list") for e in ev):
        ev.append(dict(do="list", debug=False, fail=None, workers=1))
    return dict(payload=p, targets=ts, events=ev)


def run(sc, ctx):
    p, ts = sc["payload"], sc["targets"]
    xml, csv = ctx.payload(p), ctx.targets(ts)
    need = any(e.get("fail") for e in sc["events"])
    logs = ctx.dir("logs")

    def story(dry):
        import exorad.log as xlog
        from exorad.tasks import LoadTargetList, ObserveTargetlist
        from exorad.tasks import task as task_module

        dirs = [os.path.join(logs, "d%d" % k) for k in range(2)]
        for x in dirs:
            os.makedirs(x, exist_ok=True)
        os.chdir(dirs[0])

        def named(e, name):
            """(as it is given, the file meant)"""
            how = e.get("how", "abs")
            if how == "abs":
                path = os.path.join(dirs[e.get("dir", 0)], name)
                return path, path
            return (name if how == "rel" else "./" + name), os.path.join(os.getcwd(), name)

        level = logging.INFO
        files = set()
        now = dict(seq=True, inside=False, debug=False, event=0)
        expect = {"console": collections.Counter()}
        probes = []  # text that must (or not) be there
        rec = []

        def threshold():
            return logging.ERROR if now["inside"] and not now["debug"] else level

        def due(text, lv, where):
            """One message was sent: it must be shown or not, and be in the files."""
            rec.append((text, lv >= threshold(), sorted(files), where))

        handle = logging.Logger.handle
        mine = logging.getLogger("exorad.Probe")
        paused = [False]
        unjudged = set()

        def spy(self, record):
            if self.name.startswith("exorad") and self is not mine:
                first = ("%s - %s - %s" % (record.name, record.levelname, record.getMessage())).splitlines()[0].rstrip()
                if paused[0]:
                    unjudged.add(first)
                else:
                    due(first, record.levelno, now["event"])
            return handle(self, record)

        logging.Logger.handle = spy

        def send(where):
            for lv in LEVELS:
                text = "probe %s %s" % (where, lv)
                mine.log(lv, text)
                due("exorad.Probe - %s - %s" % (logging.getLevelName(lv), text), lv, where)

        call0 = task_module.Task.__call__

        def call(self, **kw):
            if type(self).__name__ != "ObserveTarget" or now.get("single"):
                return call0(self, **kw)
            name = str(getattr(kw.get("target"), "name", "?"))
            now["inside"] = True
            try:
                if now["seq"]:
                    send("inside event %s target %s" % (now["event"], name))
                else:
                    for lv in LEVELS:
                        mine.log(lv, "probe inside event %s target %s %s" % (now["event"], name, lv))
                return call0(self, **kw)
            finally:
                now["inside"] = False

        task_module.Task.__call__ = call
        tcall = task_module.Task.__call__
        found = {}
        observed = 0
        built = ops.build(xml)
        for n, e in enumerate(sc["events"]):
            now.update(event=n, inside=False, debug=False, single=False, seq=True)
            send("before event %d" % n)
            do = e["do"]
            if do == "level":
                xlog.setLogLevel(e["level"])
                level = e["level"]
            elif do == "file":
                given, path = named(e, "log%d" % e["file"])
                xlog.addLogFile(given)
                files.add(path)
            elif do == "chdir":
                os.chdir(dirs[e["dir"]])
            elif do == "badfile":
                rule = dict(ops=["creat", "open"], sub="log%d" % e["file"], action="err", err="EACCES", nth=1, count=1)
                given, path = named(e, "log%d" % e["file"])
                try:
                    seams.with_disk(logs, [rule], lambda: xlog.addLogFile(given))
                    files.add(path)
                except OSError:
                    pass
            else:
                f = e["fail"]
                lines = None
                now.update(debug=e["debug"], single=do == "single")
                task_module.Task.__call__ = tcall
                if f and f["target"] < len(ts):
                    lines = seams.Lines(None if dry else int(f["frac"] * sc["found"][n]), f["exc"])
                    seams.in_observation(lines, ts[f["target"]]["name"])
                if e["workers"] > 1:
                    now["seq"] = False
                    executor.activate(dict(seed=n, start="fork"))
                kw = dict(plot=False, n_thread=e["workers"], debug=e["debug"])
                try:
                    if do == "run":
                        given, lf = (False, None) if e["log"] is None else (True, os.path.join(os.getcwd(), "exorad.log")) if e["log"] == "cwd" else named(e, "log%d" % e["log"])
                        if e["debug"]:
                            level = logging.DEBUG
                        if lf:
                            files.add(lf)
                        # until the run has set its level and its file, its messages are not judged
                        paused[0] = bool(e["debug"] or lf)
                        if paused[0]:
                            _resume(paused)
                        ops.pipeline(xml, csv, None, log=given, **kw)
                    elif do == "list":
                        ObserveTargetlist()(targets=LoadTargetList()(target_list=csv).target, payload=built[0], channels=built[1], wl_range=built[2], out_dir=None, **kw)
                    else:
                        for t in LoadTargetList()(target_list=csv).target:
                            ops.observe(t, built)
                    observed += 1
                except BaseException as x:
                    if not (lines and lines.fired):
                        raise
                    observed += 1
                    if do != "single" and f["exc"] not in ("KeyboardInterrupt", "SystemExit"):
                        raise
                finally:
                    paused[0] = False
                    task_module.Task.__call__ = tcall
                    if executor.S is not None:
                        executor.finish()
                        executor.S = None
                if not now["seq"]:
                    now["inside"] = True
                    for t in ts:
                        for lv in LEVELS:
                            text = "probe inside event %s target %s %s" % (n, t["name"], lv)
                            due("exorad.Probe - %s - %s" % (logging.getLevelName(lv), text), lv, n)
                if lines:
                    found[n] = len(lines.found())
            now.update(inside=False, seq=True)
            send("after event %d" % n)
        return rec, found, observed, unjudged

    sc = dict(sc)
    if need:
        r = ctx.universe(lambda: story(True)[1])
        if not r.ok:
            return dict(violations=["the history without fault ended with %s: %s" % (r.exc or r.status, r.msg)], sig="x")
        sc["found"] = {k: max(v, 1) for k, v in r.value.items()}
        ops.rm_rf(logs)
        ctx.dir("logs")
    r = ctx.universe(lambda: story(False))
    if not r.ok:
        return dict(violations=["the history ended with %s: %s" % (r.exc or r.status, r.msg)], sig="x")
    rec, _, observed, unjudged = r.value
    # what workers say themselves is not recorded: there, only the probes are followed
    par = any(e.get("workers", 1) > 1 for e in sc["events"])
    rec = [x for x in rec if x[0] not in unjudged and not (par and not x[0].startswith("exorad.Probe"))]
    shown = collections.Counter(line.rstrip() for line in r["console"].splitlines())
    infile = {}
    for n in core.tree(logs):
        if os.path.isdir(os.path.join(logs, n)):
            continue
        with open(os.path.join(logs, n), errors="replace") as f:
            c = collections.Counter()
            for line in f.read().splitlines():
                parts = line.split(" - ", 1)
                c[parts[-1].rstrip()] += 1
            infile[os.path.join(logs, n)] = c
    want = collections.Counter()
    wantf = collections.defaultdict(collections.Counter)
    first = {}
    for text, show, files, where in rec:
        want[text] += bool(show)
        first.setdefault(text, where)
        for f in files:
            wantf[f][text] += 1
    bad = []
    for text in want:
        if shown[text] != want[text]:
            bad.append("event %s: '%s' is shown %d times, not %d" % (first[text], text[:90], shown[text], want[text]))
        for f in wantf:
            if infile.get(f, {}).get(text, 0) != wantf[f][text]:
                bad.append("event %s: '%s' is %d times in %s, not %d" % (first[text], text[:90], infile.get(f, {}).get(text, 0), os.path.basename(f), wantf[f][text]))
    return dict(violations=bad[:5], nontrivial=observed > 0, sig=worlds.key(sc["events"], len(ts), r.stats.get("fired_line")), note="%d messages followed, %d runs" % (len(rec), observed))


def _resume(paused):
    """The messages of a run count from the reading of its payload on."""
    from exorad.tasks import task as task_module

    orig = task_module.Task.__call__

    def call(self, **kw):
        paused[0] = False
        return orig(self, **kw)

    task_module.Task.__call__ = call
