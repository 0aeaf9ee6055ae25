"""C12: the version notice is given exactly when it is due."""
import os
import re

from sim import answers, core, network

PLAN = dict(
    quick=500, thorough=16000,
    rule="one scenario = a history of one to three version checks, strict or not, each against a generated changelog (unreleased section or not, running version newest, older, absent, prefix of another) reached "
         "through a simulated network that works, fails, stalls or answers anything; non-trivial when at least one changelog could be read; a signature names changelogs and plans",
    assumptions=["headings follow the format of the changelog of the project", "whether a changelog is read is left open when the answer can be taken either way (a success other than 200, odd headers, or the connection check refused)",
                 "the texts of the changes do not start as the heading of a release"],
    stub="sockets, name resolution and TLS (requests, urllib3 and http.client run for real)",
    technique="deterministic simulation: seeded network behaviour and changelogs under the real HTTP stack, against a reference reading of the changelog")


def generate(rng, i, tier):
    checks = []
    for k in range(rng.choice([1, 1, 2, 3])):
        cur = rng.choice(["2.1.127", "2.1.12", "2.0.0", "1.9", "0.0.1", "10.2.3"])
        lines, rel = answers.changelog(rng, cur)
        if rng.random() < 0.5:
            plan, ok, label = dict(answers=[[network.http(200, answers.body_of(lines, rng))]]), True, "good"
        else:
            plan, ok, label = answers.gen_plan(rng, answers.body_of(lines, rng))
        checks.append(dict(cur=cur, lines=lines, rel=rel, plan=plan, ok=ok, label=label, force=rng.random() < 0.4))
    return dict(checks=checks)


def run(sc, ctx):
    checks = sc["checks"]

    def fn():
        from exorad.utils.version_control import VersionControl

        out = []
        for c in checks:
            print("@check")
            net = network.activate(c["plan"])
            err = None
            try:
                VersionControl(current_version=c["cur"], force=c["force"])
            except core.SimHang:
                raise
            except BaseException as e:  # noqa
                err = [type(e).__name__, str(e)]
            out.append(dict(err=err, now=net.now))
            network.deactivate()
        return out

    r = ctx.universe(fn)
    if not r.ok:
        return dict(violations=["the version check %s" % ("waits forever" if r.status == "hang" else "ended with %s: %s" % (r.exc or r.status, r.msg))], sig="x")
    parts = r["console"].split("@check\n")[1:]
    bad, read = [], 0
    for k, (c, v, text) in enumerate(zip(checks, r.value, parts)):
        what = "check %d (%s, running %s, %s)" % (k, c["label"], c["cur"], "strict" if c["force"] else "not strict")
        ctx.stats["sim_seconds"] = round(ctx.stats.get("sim_seconds", 0) + v["now"], 3)
        newest, given, kept = answers.expected([x.replace("\r", "") for x in c["lines"]], c["cur"])
        notice = "NEW CODE VERSION" in text
        strict = bool(v["err"]) and v["err"][0] == "VersionError"
        if v["err"] and not strict:
            bad.append("%s raised %s: %s" % (what, v["err"][0], v["err"][1]))
            continue
        due = newest is not None
        if c["ok"] is False or (c["ok"] is None and not notice):
            due = False
        else:
            read += 1
        if notice != due:
            bad.append("%s: %s notice" % (what, "no" if due else "undue"))
            continue
        if strict != (due and c["force"]):
            bad.append("%s: %s" % (what, "no version error" if due else "undue version error"))
        if not due:
            continue
        flat = text.replace("\r", "")
        for word in (c["cur"], newest):
            head = flat.split("changelog")[0]
            if not re.search(r"(?<![\d.])%s(?![\d.])" % re.escape(word), head):
                bad.append("%s: the notice does not name %s" % (what, word))
        log = flat.split("changelog", 1)[-1]
        got = [s.strip() for s in log.splitlines()]
        for s in given:
            if s.strip() not in got:
                bad.append("%s: the notice leaves out %r" % (what, s))
                break
        # what is listed from the running version on is not news
        for s in kept:
            if s.startswith("- ") and s not in given and s.strip() in got:
                bad.append("%s: the notice lists %r, which the running version has" % (what, s))
                break
    return dict(violations=bad[:4], nontrivial=read > 0, sig=core.digest([[c["label"], c["rel"], c["cur"], c["plan"]] for c in checks]), note="; ".join("%s, %s" % (c["label"], c["rel"]) for c in checks))
