"""C15: input files are never modified or deleted."""
import os

from sim import core, executor, ops, seams, worlds

PLAN = dict(
    quick=110, thorough=2500,
    rule="one scenario = a history of one to three runs whose outputs are written elsewhere (two runs with inputs of the same names into one directory, too), beside the inputs, under the name of an input (or with another extension) or through a link to one, or that plot an existing result with the plotting tool, with disk faults, exceptions, "
         "interrupts and process deaths; after each, every input is compared with its snapshot (content, inode, mode, modification time) and the log of the system calls searched for changes to it; "
         "non-trivial when a run with the inputs at stake ended; a signature names the history",
    assumptions=["a data file (not the payload or the target list) that the user names as the output is excluded", "appending to a file the user named is what the user asked"],
    stub="system calls on all the scratch directory (LD_PRELOAD), worker scheduling, 2D convolution looked up by content",
    technique="deterministic simulation: seeded histories with disk faults, crashes and interrupts; snapshot and system call log of every input")

WRITES = ("write", "pwrite", "ftruncate", "unlink", "rename", "copy")


def generate(rng, i, tier):
    p = worlds.gen_payload(rng, max_ch=2)
    ts = worlds.gen_targets(rng, rng.choice([1, 1, 2]))
    runs = []
    tool = rng.random() < 0.2
    eol = rng.choice([[], [], [], ["csv"], ["csv", "xml"], ["csv", "xml", "data"]])
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = dict(src=rng.choice(["xml", "xml", "saved"]), out=rng.choice(["out", "out", "beside", "beside", "stem-options", "stem-list", "options", "list", "link-options", "link-list", "hard-options", "copy", "shared", "shared"]), second=rng.random() < 0.3,
                 replace=rng.random() < 0.65, plot=rng.random() < 0.08, log=rng.random() < 0.2, full=rng.random() < 0.1, workers=rng.choice([1, 1, 1, 2]), fault=None, seed=rng.randrange(10**9), tool=tool and rng.random() < 0.6)
        if rng.random() < 0.55:
            k = rng.choice(["disk", "disk", "line", "line", "kill"])
            if k == "disk":
                rule = seams.gen_disk_rule(rng, sub="")
                rule.pop("frac")
                if rule["action"] == "quota":
                    rule["arg"] = rng.choice([0, 500, 20000, 200000])
                else:
                    rule["nth"] = rng.randrange(1, 12 if rule["ops"][0] not in ("write", "read") else 120)
                r["fault"] = dict(kind="disk", rule=rule)
            elif k == "kill":
                op = rng.choice(["write", "write", "creat", "close", "copy", "unlink"])
                r["fault"] = dict(kind="disk", rule=dict(ops=[op], sub="", action="kill", nth=rng.randrange(1, 60 if op == "write" else 6), count=1))
            else:
                r["fault"] = dict(kind="line", at=rng.randrange(900), exc=rng.choice(["KeyboardInterrupt", "SimFault", "OSError", "SystemExit"]))
        runs.append(r)
    if len(runs) > 1 and rng.random() < 0.5:
        # into the same directory, inputs of the same names
        for k, r in enumerate(runs):
            r.update(out="shared", second=k % 2 == 1, tool=False)
    return dict(payload=p, targets=ts, runs=runs, eol=eol)


def snap(root, rels):
    out = {}
    for rel in rels:
        path = os.path.join(root, rel)
        try:
            st = os.lstat(path)
            out[rel] = (core.sha(path), st.st_mtime_ns, st.st_mode, st.st_ino, st.st_size)
        except OSError as e:
            out[rel] = "gone (%s)" % e.strerror
    return out


def inputs(root):
    out = []
    for top in ("in", "in2", "in3"):
        for d, _, files in os.walk(os.path.join(root, top)):
            out += [os.path.relpath(os.path.join(d, f), root) for f in files]
    return sorted(out)


def run(sc, ctx):
    p, ts = sc["payload"], sc["targets"]
    xml, csv = ctx.payload(p), ctx.targets(ts)
    saved = os.path.join(ctx.dir("in"), "saved.h5")
    r = ctx.universe(lambda: ops.build(xml, saved) and None)
    if not r.ok:
        raise core.Broken("no saved payload: %s" % r.get("tb"))
    results = os.path.join(ctx.dir("in"), "results.h5")
    if any(e.get("tool") for e in sc["runs"]):
        r = ctx.universe(lambda: ops.pipeline(xml, csv, results))
        if not r.ok:
            raise core.Broken("no results: %s" % r.get("tb"))
    for rel in inputs(ctx.root):
        # as an editor or a spreadsheet of another system saves them
        ext = os.path.splitext(rel)[1]
        kind = "xml" if ext == ".xml" else "csv" if rel == os.path.relpath(csv, ctx.root) and ext == ".csv" else "data" if ext in (".csv", ".ecsv", ".dat") else None
        if kind and kind in sc.get("eol", []):
            path = os.path.join(ctx.root, rel)
            with open(path, "rb") as f:
                text = f.read()
            with open(path, "wb") as f:
                f.write(text.replace(b"\n", b"\r\n"))
    first = (xml, saved, csv)
    second = [os.path.join(ctx.dir("in3"), os.path.basename(x)) for x in first]
    for a, b in zip(first, second):
        ops.copy_file(a, b)
        if not b.endswith((".h5", ".xlsx")):
            with open(b, "a") as f:
                f.write("\n")
    known = inputs(ctx.root)
    before = snap(ctx.root, known)
    data = {rel: core.sha(os.path.join(ctx.root, rel)) for rel in known}
    bad = []
    notes = []
    fired = 0
    for n, e in enumerate(sc["runs"]):
        xml, saved, csv = second if e.get("second") else first
        src = xml if e["src"] == "xml" else saved
        d = ctx.dir("out%d" % n)
        how = e["out"]
        out = os.path.join(d, "out.h5")
        asked = set()
        if how == "shared":
            d = ctx.dir("shared")
            out = os.path.join(d, "out.h5" if n % 2 else "out%d.h5" % n)
        elif how == "beside":
            out = os.path.join(os.path.dirname(src), "beside.h5")
        elif how.startswith("stem"):
            out = os.path.splitext(xml if how.endswith("options") else csv)[0] + ".h5"
        elif how == "options":
            out = src
        elif how == "list":
            out = csv
        elif how == "copy":
            # inputs of this run are copies that already stand in the output directory
            for x in (src, csv):
                ops.copy_file(x, os.path.join(d, os.path.basename(x)))
            src, csv2 = os.path.join(d, os.path.basename(src)), os.path.join(d, os.path.basename(csv))
        elif how.startswith("link") or how.startswith("hard"):
            out = os.path.join(d, "out.h5")
            (os.symlink if how.startswith("link") else os.link)(src if how.endswith("options") else csv, out)
        use_csv = csv2 if how == "copy" else csv
        if not e["replace"] and how not in ("out", "shared", "beside", "copy", "stem-options", "stem-list") and not e.get("tool"):
            asked.add(os.path.relpath(csv if how.endswith("list") else src, ctx.root))
        f = e["fault"]

        def fn():
            os.chdir(d)
            if e["workers"] > 1:
                executor.activate(dict(seed=e["seed"], start="fork"))
            lines = seams.Lines(f["at"], f["exc"]) if f and f["kind"] == "line" else None
            if lines:
                lines.home = True

            def body():
                if lines:
                    lines.start()
                try:
                    if e.get("tool"):
                        # the figures of an existing result; the inputs may be where they go
                        ops.plot_tool(results, os.path.dirname(out))
                        return
                    ops.pipeline(src, use_csv, out, replace=e["replace"], plot=e["plot"], log=os.path.join(d, "run.log") if e["log"] else False, full_contrib=e["full"], n_thread=e["workers"])
                finally:
                    sys_untrace()

            try:
                seams.with_disk(ctx.root, [f["rule"]] if f and f["kind"] == "disk" else [], body)
            finally:
                if executor.S is not None:
                    executor.finish()
                ops.library_exit()

        extra = {}
        if how == "copy":
            extra = snap(d, [os.path.basename(src), os.path.basename(use_csv)])
        u = ctx.universe(fn)
        notes.append("%s/%s: %s" % ("tool" if e.get("tool") else e["src"], how, u.exc or u.status))
        if u.status == "hang":
            bad.append("run %d does not end" % n)
        what = "run %d (%s, output %s, %s): " % (n, "plotting tool" if e.get("tool") else e["src"], how, u.exc or u.status)
        after = snap(ctx.root, known)
        for rel in known:
            if rel in asked:
                before[rel] = after[rel]
                continue
            a, b = before[rel], after[rel]
            if a != b:
                bad.append(what + "input %s %s" % (rel, b if isinstance(b, str) else "was modified" if a[0] != b[0] else "was rewritten or replaced"))
        if extra and extra != snap(d, list(extra)):
            bad.append(what + "an input in the output directory was modified")
        for line in (u.get("log") or "").splitlines():
            w = line.split()
            if len(w) >= 3 and w[1] in WRITES and "FAULT" not in line:
                target = w[3] if w[1] == "rename" and w[2] == "->" else w[2]
                if target in data and target not in asked:
                    bad.append(what + "system call '%s' on input %s" % (w[1], target))
                    break
        fired += sum(v for q, v in (u.stats or {}).items() if q.startswith("fault:"))
        if bad or asked:
            break
    return dict(violations=bad, nontrivial=True, sig=worlds.key(sc["runs"], p["src"]), note="; ".join(notes))


def sys_untrace():
    import sys

    sys.settrace(None)
