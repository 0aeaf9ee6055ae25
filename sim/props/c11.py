"""C11: importing works, quickly, whatever the network does."""
import os

from sim import answers, core, network, seams

BOUND = 75.0

PLAN = dict(
    quick=800, thorough=20000, kind="bare",
    rule="one scenario = one import of the package in a pristine process whose network is simulated: connection check, name resolution, connection, TLS, sending and answering each work, fail, or stall as the "
         "seed says, and the server answers with any status, redirection, headers and content, whole, cut, paused or broken; a fifth of the imports are made from a checkout whose repository files are in any state or cannot be read; non-trivial when the import met at least one network operation; a signature names the plan",
    assumptions=["third-party modules are imported beforehand", "a peer that keeps sending slowly forever is excluded: at most two pauses of four seconds per answer",
                 "the name resolver gives up by itself after twenty seconds"],
    stub="sockets, name resolution and TLS (requests, urllib3 and http.client run for real)",
    technique="deterministic simulation: seeded network faults and answers under the real HTTP stack, in simulated time")


def generate(rng, i, tier):
    lines, _ = answers.changelog(rng, "2.1.127")
    plan, ok, label = answers.gen_plan(rng, answers.body_of(lines, rng))
    env = {}
    if rng.random() < 0.2:
        # what the network of the machine asks for
        env = rng.choice([{"HTTPS_PROXY": "http://127.0.0.1:9"}, {"HTTPS_PROXY": "http://"}, {"HTTPS_PROXY": "nonsense://[x"}, {"ALL_PROXY": "socks5://127.0.0.1:9"}, {"REQUESTS_CA_BUNDLE": "/nonexistent/ca.pem"},
                          {"HTTPS_PROXY": "http://proxy.invalid:3128", "NO_PROXY": "*"}])
        label += " with " + " ".join("%s=%s" % kv for kv in sorted(env.items()))
    # a fifth of the imports are made from a checkout of its own
    git = rng.choice(GIT) if rng.random() < 0.2 else None
    fault = dict(sub=rng.choice(["HEAD", "main"]), op=rng.choice(["open", "open", "read"]), err=rng.choice(["EIO", "EACCES", "EMFILE"])) if git and rng.random() < 0.3 else None
    if git:
        label += ", checkout %s%s" % (git, " (%(op)s of %(sub)s: %(err)s)" % fault if fault else "")
    return dict(plan=plan, env=env, label=label, git=git, fault=fault, timeout=rng.choice([None, None, None, 7.0, 120.0]))


# states of the repository that the package is imported from
GIT = ["none", "ref", "detached", "packed", "file", "nohead", "headdir", "refdir", "empty", "binary"]


def checkout(ctx, state):
    """The package as a checkout in the given state; returns its path."""
    import shutil

    top = ctx.dir("checkout")
    shutil.copytree(os.path.join(os.environ["XR_REPO"], "exorad"), os.path.join(top, "exorad"), ignore=shutil.ignore_patterns("data", "__pycache__"))
    git = os.path.join(top, ".git")
    if state == "none":
        return top
    if state == "file":
        with open(git, "w") as f:
            f.write("gitdir: ../.git/worktrees/here\n")
        return top
    heads = os.path.join(git, "refs", "heads")
    os.makedirs(heads)
    ref = b"0123456789abcdef0123456789abcdef01234567\n"
    head = {"detached": ref, "empty": b"", "binary": b"\xff\xfe\x00\x81\n"}.get(state, b"ref: refs/heads/main\n")
    if state == "headdir":
        os.mkdir(os.path.join(git, "HEAD"))
    elif state != "nohead":
        with open(os.path.join(git, "HEAD"), "wb") as f:
            f.write(head)
    if state == "refdir":
        os.mkdir(os.path.join(heads, "main"))
    elif state != "packed":
        with open(os.path.join(heads, "main"), "wb") as f:
            f.write(ref)
    return top


def settings():
    import socket
    import ssl

    return dict(timeout=socket.getdefaulttimeout(), env=dict(os.environ), socket=id(socket.socket), addr=id(socket.getaddrinfo), conn=id(socket.create_connection),
                context=(id(ssl.create_default_context), id(ssl._create_default_https_context)))


def run(sc, ctx):
    top = checkout(ctx, sc["git"]) if sc.get("git") else None

    def fn():
        import socket
        import sys
        import time

        if any(m.split(".")[0] == "exorad" for m in sys.modules):
            raise core.HarnessError("the package is already imported")
        net = network.activate(sc["plan"])
        t0 = time.sleep

        def sleep(s):
            net.now += s

        time.sleep = sleep
        os.environ.update(sc["env"])
        if sc["timeout"]:
            socket.setdefaulttimeout(sc["timeout"])
        if top:
            sys.path.insert(0, top)
        before = settings()
        err = None
        f = sc.get("fault")
        if f:
            seams.arm_disk(os.path.join(top, ".git"), [dict(ops=[f["op"]], sub=f["sub"], action="sticky", err=f["err"])])
        try:
            import exorad

            usable = callable(getattr(exorad, "standard_pipeline", None))
        except core.SimHang:
            raise
        except BaseException as e:  # noqa
            err, usable = "%s: %s" % (type(e).__name__, e), False
        after = settings()
        if f:
            core.bump("fault:git_" + f["op"], sum(seams.disarm_disk()))
        if top:
            core.bump("checkouts")
        time.sleep = t0
        return dict(err=err, usable=usable, now=net.now, hang=net.hang, changed=[k for k in before if before[k] != after[k]], events=net.events, requests=net.requests)

    r = ctx.universe(fn)
    bad = []
    if r.status == "hang" or (r.ok and r.value["hang"]):
        bad.append("%s: the import waits forever (%s)" % (sc["label"], r.msg if not r.ok else r.value["hang"]))
    elif not r.ok:
        bad.append("%s: the import ended with %s: %s" % (sc["label"], r.exc or r.status, r.msg))
    if r.ok:
        v = r.value
        ctx.stats["sim_seconds"] = round(ctx.stats.get("sim_seconds", 0) + v["now"], 3)
        if v["err"]:
            bad.append("%s: the import raised %s" % (sc["label"], v["err"]))
        elif not v["usable"]:
            bad.append("%s: the package imported is not usable" % sc["label"])
        if v["now"] > BOUND:
            bad.append("%s: the import took %.0f s" % (sc["label"], v["now"]))
        for k in v["changed"]:
            bad.append("%s: the import changed the process-wide %s" % (sc["label"], k))
        note = "%s: %.1f s, %d requests" % (sc["label"], v["now"], v["requests"])
        return dict(violations=bad, nontrivial=bool(v["events"]), sig=core.digest([sc["label"], sc["plan"]]), note=note)
    return dict(violations=bad, nontrivial=True, sig=sc["label"])
