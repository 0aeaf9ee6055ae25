"""C27: runs at the same time do not disturb each other."""
import os
import random
import re

from sim import core, executor, ops, worlds
from sim.props.c07 import _drop_ids

PLAN = dict(
    quick=60, thorough=2500,
    rule="one scenario = two or three runs at the same time, each in its own process and with its own output file, which share payloads, lists, working directory, temporary directory and often the "
         "output directory and the log file; one of them may fail, be interrupted or die at any step; non-trivial when the runs overlap; a signature names the world, the runs and the schedule",
    assumptions=["figures are compared only if the runs have different output directories (their names are those of the targets)", "every run alone in a pristine process is the reference"],
    stub="scheduling of the processes (one runs at a time, and gives way at chosen lines of the package, messages, tasks and file openings); 2D convolution looked up by content",
    technique="deterministic simulation: seeded interleaving of several runs line by line, with failures and process deaths, compared with every run alone")


def generate(rng, i, tier):
    p = worlds.gen_payload(rng, max_ch=2)
    q = worlds.gen_payload(rng, max_ch=2) if rng.random() < 0.4 else None
    ts = worlds.gen_targets(rng, rng.choice([1, 2, 2, 3]))
    runs = []
    shared = rng.random() < 0.6
    base = rng.choice(["out", "out", "out%d", "%d.out"])
    for n in range(rng.choice([2, 2, 2, 3])):
        runs.append(dict(payload=rng.choice([0, 1]) if q else 0, src=rng.choice(["xml", "xml", "xml", "saved"]), part=rng.choice([0, 0, 1]), dir="out" if shared else rng.choice(["out", "out%d" % n]),
                         plot=rng.random() < 0.15, log=rng.choice([None, None, "exorad.log", "own"]), full=rng.random() < 0.15, workers=rng.choice([1, 1, 1, 1, 2]), twice=rng.choice([0, 0, 0, 1, 2]),
                         prob=rng.choice([0.001, 0.004, 0.015]), start=rng.choice([0, 0, 0, 1]) * rng.randrange(200), fault=None))
        if rng.random() < 0.12:
            runs[-1]["twice"] = 1
    if rng.random() < 0.5:
        r = rng.choice(runs)
        r["fault"] = dict(kind=rng.choice(["die", "die", "line"]), frac=round(rng.random(), 5), exc=rng.choice(["SimFault", "KeyboardInterrupt", "OSError", "MemoryError"]))
    for n, r in enumerate(runs):
        r["name"] = (base if "%" in base else base + "%d") % n + ".h5"
        if r["plot"] and any(x["dir"] == r["dir"] for x in runs if x is not r):
            r["plot"] = False
    # the output directory may have to be made, with those above it (a log file
    # in it cannot be opened before)
    seed, made = rng.randrange(10**9), rng.choice([None, None, "", "a/b"])
    if made is not None:
        for r in runs:
            r["log"] = None if r["log"] == "own" else r["log"]
    return dict(payload=p, other=q, targets=ts, runs=runs, seed=seed, made=made)


FILES = ("open", "os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.listdir", "os.scandir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.utime", "shutil.copyfile", "shutil.copymode",
         "shutil.copystat", "shutil.move", "shutil.rmtree", "glob.glob", "fcntl.flock", "fcntl.lockf", "tempfile.mkstemp", "tempfile.mkdtemp")


class Stepper:
    """Gives way now and then, at the lines of the package."""

    def __init__(self, seed, prob, at=None, exc=None):
        self.rng = random.Random(seed)
        self.prefix = os.path.join(core.REPO, "exorad") + os.sep
        self.prob = prob
        self.n = 0
        self.at, self.exc = at, exc
        self.pid = os.getpid()

    def start(self):
        import sys

        sys.settrace(self._global)

    def watch(self, root):
        """Gives way at what is done to files, too."""
        import sys

        root = root.rstrip("/") + "/"
        here = os.getpid()
        busy = []

        def hook(event, args):
            if event in FILES and not busy and os.getpid() == here and any(isinstance(a, str) and a.startswith(root) or isinstance(a, os.PathLike) and os.fspath(a).startswith(root) for a in args[:2]):
                busy.append(1)
                try:
                    executor.yield_point("file")
                finally:
                    busy.clear()

        sys.addaudithook(hook)

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.prefix) and frame.f_code.co_name != "__del__":
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" and os.getpid() == self.pid:
            self.n += 1
            if self.n == self.at:
                from sim import seams

                core.bump("fault:line_" + self.exc)
                raise seams.EXC[self.exc]("injected")
            if self.rng.random() < self.prob:
                executor.yield_point("line")
        return self._local


def work(r, n, seed, src, csv, out, cwd, tmp, con, prob, at=None, root=None):
    """A run, in its own process."""
    import sys
    import tempfile

    fd = os.open(con, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)
    os.chdir(cwd)
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    if r["workers"] > 1:
        executor.activate(dict(seed=seed + n, start="fork"))
    s = Stepper(seed * 7 + n, prob, at, (r["fault"] or {}).get("exc"))
    if root:
        s.watch(root)
    ends = []
    for k in range(1 + (1 if r["twice"] else 0)):
        s.start()
        try:
            ops.pipeline(src, csv, out, plot=r["plot"], log={None: False, "own": out + ".log"}.get(r["log"], r["log"]), full_contrib=r["full"], n_thread=r["workers"], replace=not (k and r["twice"] == 2))
            ends.append("ok")
        except (Exception, KeyboardInterrupt) as e:
            ends.append(type(e).__name__)
        finally:
            sys.settrace(None)
    if executor.S is not None:
        executor.finish()
    return ends, s.n


def run(sc, ctx):
    ps = [sc["payload"]] + ([sc["other"]] if sc["other"] else [])
    srcs = []
    for n, p in enumerate(ps):
        xml = ctx.payload(p, "payload%d.xml" % n)
        h5 = os.path.join(ctx.dir("in"), "saved%d.h5" % n)
        if any(r["src"] == "saved" and r["payload"] == n for r in sc["runs"]):
            u = ctx.universe(lambda: ops.build(xml, h5) and None)
            if not u.ok:
                raise core.Broken("no saved payload: %s" % u.get("tb"))
        srcs.append(dict(xml=xml, saved=h5))
    lists = [ctx.targets(sc["targets"])]
    lists.append(ctx.targets(sc["targets"][:-1] or sc["targets"], "part.csv"))
    before = core.tree(ctx.dir("in"))

    # every run alone
    alone = []
    for n, r in enumerate(sc["runs"]):
        d, cwd, tmp = ctx.dir("alone%d" % n), ctx.dir("cwd_alone%d" % n), ctx.dir("tmp_alone%d" % n)
        u = ctx.universe(lambda: work(dict(r, fault=None), n, sc["seed"], srcs[r["payload"]][r["src"]], lists[r["part"]], os.path.join(d, r["name"]), cwd, tmp, os.path.join(cwd, ".con"), 0.0))
        if not u.ok:
            raise core.Broken("a run alone ended with %s: %s\n%s" % (u.get("exc") or u.status, u.get("msg"), u.get("tb")))
        if r["twice"] != 2 and set(u.value[0]) != {"ok"}:
            return dict(violations=["run %d alone ended with %s" % (n, u.value[0])], sig="x")
        alone.append(dict(ends=u.value[0], lines=u.value[1], files=content(d, ctx), log=logged(os.path.join(cwd, "exorad.log"), ctx), cwd=sorted(os.listdir(cwd)), tmp=sorted(os.listdir(tmp))))

    cwd, tmp = ctx.dir("cwd"), ctx.dir("tmp")
    outs = []
    for n, r in enumerate(sc["runs"]):
        if sc.get("made") is None:
            outs.append(os.path.join(ctx.dir(r["dir"]), r["name"]))
        else:
            # made by the runs
            outs.append(os.path.join(ctx.dir("new"), sc["made"], r["dir"], r["name"]))

    def together():
        import pickle

        sim = executor.Sim(dict(seed=sc["seed"], start="fork"))
        executor._hook_yields()
        executor.S = None
        ws = []
        for n, r in enumerate(sc["runs"]):
            f = r["fault"] or {}
            w = executor.ProcWorker(sim)
            at = None
            if f.get("kind") == "line":
                at = 1 + int(f["frac"] * alone[n]["lines"])
            w.left = None
            if f.get("kind") == "die":
                # at one of the places where it gives way
                w.left = 1 + int(f["frac"] * (alone[n]["lines"] * r["prob"] + 60))
            args = (dict(r), n, sc["seed"], srcs[r["payload"]][r["src"]], lists[r["part"]], outs[n], cwd, tmp, os.path.join(ctx.root, "con.run%d" % n), r["prob"], at, ctx.root)
            w.start(pickle.dumps((work, args, {})), w.left)
            w.res = None
            ws.append(w)
        live = list(range(len(ws)))
        trace = []
        rng = random.Random(sc["seed"])
        while live:
            ready = [k for k in live if sc["runs"][k]["start"] <= len(trace)] or live
            n = rng.choice(ready)
            for _ in range(rng.choice((1, 1, 2, 3, 8, 40))):
                trace.append(n)
                msg = ws[n].step()
                if msg[0] == "yield":
                    continue
                live.remove(n)
                if msg[0] == "dead":
                    core.bump("fault:process_death")
                    ws[n].res = ("dead", 0)
                elif msg[0] == "done":
                    ws[n].res = pickle.loads(msg[1])
                else:
                    e = pickle.loads(msg[1])
                    ws[n].res = ("%s: %s" % (type(e).__name__, str(e)[-1500:]), 0)
                break
        for w in ws:
            w.kill()
        core.bump("sched_steps", len(trace))
        sw = sum(1 for a, b in zip(trace, trace[1:]) if a != b)
        core.bump("sched_switches", sw)
        return [w.res for w in ws], core.digest(trace), sw

    u = ctx.universe(together, 240.0)
    if u.status == "hang" or not u.ok:
        return dict(violations=["the runs together ended with %s: %s" % (u.get("exc") or u.status, u.get("msg"))], sig="x")
    res, schedule, switches = u.value
    bad = []
    want_dirs = {}
    loose = set()
    for n, r in enumerate(sc["runs"]):
        what = "run %d (%s)" % (n, {k: r[k] for k in ("src", "dir", "name", "workers", "twice")})
        d = os.path.dirname(outs[n])
        want = want_dirs.setdefault(d, {})
        end = res[n][0]
        if r["fault"]:
            # whatever became of it, what belongs to it is not judged
            loose |= {(d, x) for x in alone[n]["files"]} | {(d, r["name"])}
            if r["fault"]["kind"] == "line" and isinstance(end, str) and end != "dead":
                bad.append("%s ended with %s" % (what, end))
            continue
        if end != alone[n]["ends"]:
            bad.append("%s ended with %s, alone it ends with %s" % (what, end, alone[n]["ends"]))
            continue
        want.update(alone[n]["files"])
    for d, want in want_dirs.items():
        got = content(d, ctx)
        for x in sorted(set(got) | set(want)):
            if (d, x) in loose and x not in want:
                continue
            dd = core.diff(want.get(x), got.get(x), 1e-9, os.path.join(os.path.basename(d), x)) if x in want and x in got else "%s is %s" % (x, "missing" if x in want else "there: no run alone leaves it")
            if dd and not (x not in want and any(r["fault"] and os.path.dirname(outs[n]) == d for n, r in enumerate(sc["runs"]))):
                bad.append("with the other runs: " + dd)
    # the messages in the log file that runs share
    faulty = [r for r in sc["runs"] if r["fault"]]
    if any(r["log"] == "exorad.log" for r in sc["runs"]) and not any(r["log"] == "exorad.log" for r in faulty):
        import collections

        want = collections.Counter()
        for n, r in enumerate(sc["runs"]):
            if r["log"] == "exorad.log":
                want.update(alone[n]["log"])
        got = collections.Counter(logged(os.path.join(cwd, "exorad.log"), ctx))
        if got != want:
            bad.append("messages lost %s or added %s in the log file" % (sorted((want - got).elements())[:3], sorted((got - want).elements())[:3]))
    if not faulty:
        for what, d in (("cwd", cwd), ("tmp", tmp)):
            left = set(os.listdir(d)) - {x for a in alone for x in a[what]}
            if left:
                bad.append("files left in the %s directory: %s" % ({"cwd": "working", "tmp": "temporary"}[what], sorted(left)))
    x = core.diff(before, core.tree(ctx.dir("in")), 0, "in")
    if x:
        bad.append("input files: %s" % x)
    return dict(violations=[core.norm(b, ctx.root) for b in bad], nontrivial=switches > 3, sig=worlds.key(sc["payload"], sc["other"], sc["targets"], sc["runs"], schedule), note="%s, %d switches" % ([r[0] for r in res], switches))


def logged(path, ctx):
    """Messages of a log file, without their dates and the names of the scratch directories."""
    if not os.path.exists(path):
        return []
    out = []
    with open(path, errors="replace") as f:
        for line in f.read().splitlines():
            m = re.match(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d{3} - (exorad\S*) - (\w+) - ", line)
            # (which of the runs makes the directory is not settled)
            if m and m.group(2) != "DEBUG" and "output directory created" not in line:
                out.append(re.sub(r"/(alone\d|(new/(a/b/)?)?out\d?)(?=/|$)", "/<D>", core.norm(line[m.start(1):], ctx.root)))
    return out


def content(d, ctx):
    """Everything the runs left in a directory, but for log files."""
    out = {}
    for n in sorted(os.listdir(d)) if os.path.isdir(d) else ():
        path = os.path.join(d, n)
        if n.endswith(".log"):
            continue
        if n.startswith(("out", "0.", "1.", "2.")) and n.endswith(".h5"):
            h5, tab, err = ops.read_out(path)
            if err:
                out[n] = "unreadable " + err
                continue
            h5 = ops.strip_roots(h5, ctx.root)
            h5.pop("info", None)
            _drop_ids(h5)
            out[n] = dict(h5=h5, tables=tab)
        else:
            out[n] = core.sha(path)
    return out
