"""C18: the same inputs give the same outputs, everywhere and always."""
import glob
import json
import os
import random
import subprocess

from sim import core, ops, worlds

PLAN = dict(
    quick=24, thorough=900,
    rule="one scenario = the same run (from a description or through a saved payload, with or without figures, full contributions and the plotting tool afterwards) in two or three fresh interpreters that differ in hash seed, time zone, locale, "
         "working directory (with files named as the inputs lying there), absolute or relative paths, order of the directory listings, modification times of the inputs, date, and jumps of the clock while running; all are compared; "
         "non-trivial when they ended normally; a signature names the world and the environments",
    assumptions=["numbers are compared with a relative tolerance of 1e-12 (vector instructions depend on the alignment of the memory), figures pixel by pixel", "the recorded times and the year of the copyright notice are left out"],
    stub="clock, directory listings, network (offline), 2D convolution looked up by content",
    technique="deterministic simulation: seeded environments, clock jumps and listing orders around fresh interpreters, runs compared with one another")

ZONES = ["UTC", "Asia/Tokyo", "America/St_Johns", "Pacific/Kiritimati", "Australia/Lord_Howe", ":/nonexistent"]


def gen_env(rng, first):
    return dict(
        hashseed=0 if first else rng.randrange(1, 2**31), tz=rng.choice(ZONES), lang=rng.choice(["C", "C.UTF-8", "POSIX", "de_DE.UTF-8", "tr_TR.ISO-8859-9"]),
        cwd=rng.choice(["root", "decoy", "cwd", "out"]), relative=rng.random() < 0.4, listing=rng.randrange(10**6), umask=rng.choice([0o022, 0o077]),
        mtimes=None if first else rng.randrange(10**6), phoenix=rng.random() < 0.3, optimize=rng.random() < 0.15,
        clock=dict(wall=rng.choice([86400, 951782390, 1700000000, 2**31 - 3, 4102444790]) * 10**9, step=rng.choice([1000, 10**6, 10**9]), seed=rng.randrange(1, 2**60), every=rng.choice([0, 1, 2, 20])))


def generate(rng, i, tier):
    p = worlds.gen_payload(rng, max_ch=2)
    if rng.random() < 0.4:
        p["src"] = "phoenix"
    if rng.random() < 0.25:
        # a wide spot, whose aperture is looked for
        p["chs"] = ["B"] + [k for k in p["chs"] if k != "B"][:1]
        p["x"] = sorted({"pixels"} | (set(p["x"]) - {"psf", "psfs", "paos"}))
    plot = rng.random() < 0.45
    ts = worlds.gen_targets(rng, 1 if plot else rng.choice([1, 2]))
    if p["src"] == "phoenix":
        for t in ts:
            # two models equally near
            t["Teff"] = rng.choice([5100, 6000, t["Teff"]])
    return dict(payload=p, targets=ts, plot=plot, full=rng.random() < 0.2, saved=rng.random() < 0.25, tool=rng.choice([None, None, None, [], [], ["-n", "0"], ["-t", ts[0]["name"]]]), envs=[gen_env(rng, k == 0) for k in range(rng.choice([2, 2, 3]))])


def decoys(ctx, p):
    """A directory with other files named as the inputs."""
    d = ctx.dir("decoy")
    q = dict(p, cfg="in2" if p["cfg"] == "in" else "in", frg=["zmap", "skyA", "skyB"], src="custom", chs=["S", "T"])
    root = ctx.dir("other")
    worlds.write_payload(q, root, "payload.xml")
    for x in glob.glob(os.path.join(root, q["cfg"], "*")):
        if os.path.isfile(x):
            ops.copy_file(x, os.path.join(d, os.path.basename(x)))
    worlds.write_phoenix(os.path.join(d, "phx"))
    for n in os.listdir(os.path.join(d, "phx")):
        with open(os.path.join(d, "phx", n), "wb") as f:
            f.write(worlds.phoenix_bytes(30, 7.0))
    os.makedirs(os.path.join(d, "data"), exist_ok=True)
    worlds.write_zodimap(os.path.join(d, "data", "Zodi_map.hdf5"))
    return d


def ages(root, rng):
    """The inputs as another copy of them has them: with other modification times."""
    for top in ("in", "in2"):
        for d, _, files in sorted(os.walk(os.path.join(root, top))):
            for n in sorted(files):
                t = rng.randrange(10**9, 2 * 10**9)
                os.utime(os.path.join(d, n), (t, t))


def run(sc, ctx):
    p, ts = sc["payload"], sc["targets"]
    xml, csv = ctx.payload(p), ctx.targets(ts)
    # found again whatever the working directory
    dec = decoys(ctx, p)
    bad, ref = [], None
    for k, e in enumerate(sc["envs"]):
        d = ctx.dir("run%d" % k)
        o = os.path.join(d, "out")
        os.makedirs(o)
        cwd = {"root": ctx.root, "decoy": dec, "cwd": ctx.dir("cwd"), "out": o}[e["cwd"]]

        def rel(x):
            return os.path.relpath(x, cwd) if e["relative"] else x

        out = os.path.join(o, "out.h5")
        req = dict(src=rel(xml), csv=rel(csv), out=rel(out), plot=sc["plot"], full=sc["full"], saved=rel(os.path.join(d, "saved.h5")) if sc["saved"] else None, cli=bool(sc.get("cli")), tool=sc.get("tool"), clock=e["clock"], listing=e["listing"], res=os.path.join(d, "res.json"))
        if e.get("mtimes") is not None:
            ages(ctx.root, random.Random(e["mtimes"]))
        rq = os.path.join(d, "req.json")
        with open(rq, "w") as f:
            json.dump(req, f)
        env = dict(os.environ, PYTHONHASHSEED=str(e["hashseed"]), TZ=e["tz"], LANG=e["lang"], LC_ALL=e["lang"], MPLBACKEND="Agg")
        if e["phoenix"]:
            env["PHOENIX_PATH"] = os.path.join(dec, "phx")
        con = os.path.join(d, "console")
        cmd = [env["XR_PY"], "-B"] + (["-O"] if e["optimize"] else []) + [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "alone.py"), rq]
        with open(con, "w") as f:
            r = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, timeout=240, preexec_fn=lambda: os.umask(e["umask"]))
        ctx.universes += 1
        text = open(con, errors="replace").read()
        if r.returncode or not os.path.exists(req["res"]):
            raise core.Broken("the interpreter ended with %s: %s" % (r.returncode, text[-1500:]))
        with open(req["res"]) as f:
            res = json.load(f)
        for q, n in (("fault:clock_jump", res["jumps"]), ("fault:listing", res["listings"])):
            ctx.stats[q] = ctx.stats.get(q, 0) + n
        what = "environment %d (%s, %s, %s, in %s)" % (k, e["tz"], e["lang"], "relative paths" if e["relative"] else "absolute paths", e["cwd"])
        if res["error"]:
            bad.append("%s: the run ended with %s" % (what, res["error"]))
            break
        h5, tab, err = ops.read_out(out)
        if err:
            bad.append("%s: no readable output: %s" % (what, err))
            break
        h5 = {q: ops.strip_roots(v, ctx.root) for q, v in h5.items() if q != "info"}
        figs = {os.path.relpath(x, o): x for x in sorted(glob.glob(os.path.join(o, "**", "*"), recursive=True)) if x.lower().endswith((".png", ".pdf", ".svg", ".jpg"))}
        files = sorted(os.path.relpath(x, o) for x in glob.glob(os.path.join(o, "**", "*"), recursive=True))
        if ref is None:
            ref = (h5, tab, figs, files)
            continue
        x = core.diff(ref[0], h5, 1e-12, "") or core.diff(ref[1], tab, 1e-12, "tables")
        if x:
            bad.append("%s gives another result than environment 0: %s" % (what, x))
        if files != ref[3]:
            bad.append("%s leaves other files: %s" % (what, sorted(set(files) ^ set(ref[3]))))
        for n in sorted(set(figs) & set(ref[2])):
            y = ops.figures_differ(ref[2][n], figs[n])
            if y:
                bad.append("%s: figure %s %s" % (what, n, y))
        if bad:
            break
    return dict(violations=bad, nontrivial=ref is not None and not (bad and ref is None), sig=worlds.key(sc), note="%d figures" % (len(ref[2]) if ref else 0))
