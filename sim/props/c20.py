"""C20: under MPI only the master rank talks, and data scatter and gather back in order."""
import os
import re

from sim import answers, core, mpi, network

PLAN = dict(
    quick=300, thorough=9000, kind="bare",
    rule="one scenario = one to five simulated ranks that import the package and run the same random program of messages, level changes, silencing, log files, reading of files, scatters and gathers with any root and "
         "with lists of any length, in an order drawn from the seed, with eager or synchronous communication; non-trivial with at least two ranks; a signature is the program and the order",
    assumptions=["mpi4py is simulated: collective calls match by their order on each rank, and a scatter of a wrong number of elements raises on the root only, as in mpi4py",
                 "every rank gives a list to scatter, of the same length"],
    stub="mpi4py (the ranks are processes scheduled one at a time), network",
    technique="deterministic simulation: seeded schedules of simulated MPI ranks, against a reference of what each shows and gets")

LEVELS = [10, 20, 30, 40, 50]


def generate(rng, i, tier):
    size = rng.choice([1, 2, 2, 3, 3, 4, 5])
    prog = []
    for k in range(rng.randrange(4, 14)):
        what = rng.choice(["log"] * 5 + ["level", "level", "disable", "enable", "file", "scatter", "scatter", "gather", "gather", "both", "task", "observe"])
        s = dict(do=what)
        if what == "log":
            s.update(level=rng.choice(LEVELS), name=rng.choice(["Task", "new", "root"]))
        elif what == "level":
            s.update(level=rng.choice(LEVELS))
        elif what in ("scatter", "both"):
            s.update(root=rng.choice([0, 0, rng.randrange(size)]), n=rng.choice([size] * 4 + [size - 1, 0, size + 1, size + 3]), kind=rng.choice(["int", "str", "dict", "none", "array"]))
        elif what == "gather":
            s.update(root=rng.choice([0, 0, rng.randrange(size)]), kind=rng.choice(["int", "str", "dict", "none", "array"]))
        prog.append(s)
    lines, _ = answers.changelog(rng, "2.1.127")
    return dict(size=size, prog=prog, eager=rng.random() < 0.5, seed=rng.randrange(10**9), net=[network.http(200, answers.body_of(lines, rng))] if rng.random() < 0.5 else None)


def element(kind, step, rank):
    import numpy as np

    return {"int": step * 100 + rank, "str": "s%d.%d" % (step, rank), "dict": {"rank": rank, "x": [step, {"y": rank}]}, "none": None if rank % 2 else rank, "array": np.arange(3) + rank}[kind]


def run(sc, ctx):
    size, prog = sc["size"], sc["prog"]
    d = ctx.dir("ranks")
    consoles = [os.path.join(d, "console%d" % r) for r in range(size)]
    csv = os.path.join(d, "targets.csv")
    with open(csv, "w") as f:
        f.write("# %ECSV 1.0\nnot a table\n")

    def program(rank):
        import logging

        network.activate(dict(ping="ok", answers=[sc["net"]]) if sc["net"] else dict(ping="unreach", dns="fail"))
        import exorad.log as log
        from exorad.log import Logger
        from exorad.utils import mpi as xm

        network.deactivate()
        out = []
        for k, s in enumerate(prog):
            do, got = s["do"], None
            try:
                if do == "log":
                    class Speaker(Logger):
                        pass

                    who = Speaker()
                    if s["name"] == "root":
                        logging.getLogger("exorad").log(s["level"], "@%d@" % k)
                    elif s["name"] == "Task":
                        from exorad.tasks import LoadOptions

                        who = LoadOptions()
                        who.set_log_name()
                    if s["name"] != "root":
                        {10: who.debug, 20: who.info, 30: who.warning, 40: who.error, 50: who.critical}[s["level"]]("@%d@" % k)
                elif do == "level":
                    log.setLogLevel(s["level"])
                elif do == "disable":
                    log.disableLogging()
                elif do == "enable":
                    log.enableLogging()
                elif do == "file":
                    log.addLogFile(os.path.join(d, "log%d" % rank))
                elif do == "task":
                    from exorad.tasks import LoadOptions

                    LoadOptions()(filename=os.path.join(d, "missing.xml"))
                elif do == "observe":
                    from exorad.tasks import LoadTargetList

                    LoadTargetList()(target_list=csv)
                elif do == "scatter":
                    got = xm.scatter([element(s["kind"], k, r) for r in range(s["n"])], root=s["root"])
                elif do == "gather":
                    got = xm.gather(element(s["kind"], k, rank), root=s["root"])
                elif do == "both":
                    one = xm.scatter([element(s["kind"], k, r) for r in range(s["n"])], root=s["root"])
                    got = xm.gather(one, root=s["root"])
                out.append(["got", core.canon(got)])
            except (ValueError, TypeError, KeyError, OSError) as e:
                out.append(["raised", type(e).__name__])
        return dict(out=out, size=xm.nprocs(), rank=xm.get_rank())

    def fn():
        return mpi.run(size, sc["seed"], sc["eager"], program, consoles)

    r = ctx.universe(fn)
    if not r.ok:
        return dict(violations=["the ranks %s" % ("do not end" if r.status == "hang" else "ended with %s: %s" % (r.exc or r.status, r.msg))], sig="x")
    results, problem, order = r.value
    bad = []
    if problem:
        bad.append("%d ranks: %s" % (size, problem))
    for rank in range(size):
        what = "rank %d of %d" % (rank, size)
        if not results[rank]:
            continue
        if results[rank][0] != "ok":
            bad.append("%s: %s %s" % (what, results[rank][0], results[rank][1]))
            continue
        v = results[rank][1]
        if (v["size"], v["rank"]) != (size, rank):
            bad.append("%s: taken as rank %s of %s" % (what, v["rank"], v["size"]))
        with open(consoles[rank], errors="replace") as f:
            text = f.read()
        user, silent = 20, False
        filed = False
        lf = os.path.join(d, "log%d" % rank)
        logged = open(lf, errors="replace").read() if os.path.exists(lf) else ""
        for k, s in enumerate(prog):
            do = s["do"]
            if do == "level":
                user, silent = s["level"], False
            elif do == "disable":
                silent = True
            elif do == "enable":
                silent = False
            elif do == "file":
                filed = True
            elif do == "log":
                least = 40 if silent else user
                shown = s["level"] >= least and (rank == 0 or s["level"] >= 40)
                n = text.count("@%d@" % k)
                if n != int(shown):
                    bad.append("%s: a message of level %d is shown %d times with level %d%s" % (what, s["level"], n, user, " silenced" if silent else ""))
                if logged.count("@%d@" % k) != int(filed):
                    bad.append("%s: a message is written %d times in the log file" % (what, logged.count("@%d@" % k)))
            elif do in ("scatter", "gather", "both") and not problem:
                n = s.get("n", size)
                tag, got = v["out"][k]
                w2 = "%s, %s of %d from root %d" % (what, do, n, s["root"])
                if n != size:
                    if tag != "raised" or got != "ValueError":
                        bad.append("%s: not refused" % w2)
                    continue
                if tag != "got":
                    bad.append("%s: raised %s" % (w2, got))
                    continue
                if do == "scatter":
                    want = element(s["kind"], k, rank)
                else:
                    want = [element(s["kind"], k, q) for q in range(size)] if rank == s["root"] else None
                x = core.diff(core.canon(want), got, 0.0)
                if x:
                    bad.append("%s: %s" % (w2, x))
        if rank and re.search(r" - (DEBUG|INFO|WARNING) - ", text):
            bad.append("%s shows %r" % (what, re.search(r".* - (DEBUG|INFO|WARNING) - .*", text).group(0)))
    return dict(violations=bad[:5], nontrivial=size > 1, sig=core.digest([prog, order]), note="%d ranks, %d steps" % (size, len(order)))
