#!/opt/venv/bin/python
"""Deterministic simulation of ExoRad2: seeded search over schedules and faults.

  check.py C01 [--tier quick|thorough]     decide one property
  check.py replay FILE                     reproduce a violation exactly
  check.py selftest                        the simulator checks itself
  check.py one C01 INDEX                   one scenario, verbose
"""
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import queue
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
REPO = os.environ.get("XR_REPO", "/repo")

from sim import props  # noqa: E402


class Harness(Exception):
    pass


class Lab:
    """A scratch directory with the shim, and template processes on demand."""

    def __init__(self):
        self.scratch = "/tmp/xr." + os.urandom(4).hex()
        os.mkdir(self.scratch, 0o700)
        for d in ("home", "tmp", "w", "golden", "cwd", "cache"):
            os.mkdir(os.path.join(self.scratch, d))
        self.shim = os.path.join(self.scratch, "shim.so")
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", self.shim, os.path.join(HERE, "sim", "shim.c"), "-ldl"], capture_output=True, text=True)
        if r.returncode:
            raise Harness("cannot build the shim: " + r.stderr)
        self.templates = []
        self.results = queue.Queue()

    def env(self, hashseed):
        s = self.scratch
        return dict(PATH=os.environ.get("PATH", "/usr/bin:/bin"), HOME=s + "/home", TMPDIR=s + "/tmp", XDG_CACHE_HOME=s + "/cache", XDG_CONFIG_HOME=s + "/cache",
                    MPLCONFIGDIR=s + "/cache", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(hashseed), OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                    LANG="C.UTF-8", TZ="UTC", LD_PRELOAD=self.shim, XR_SHIM=self.shim, XR_SCRATCH=s, XR_REPO=REPO, XR_PY=PY, PYTHONPATH=REPO)

    def start(self, kind, par, hashseed=0):
        r, w = os.pipe()
        os.set_inheritable(w, True)
        err = open(os.path.join(self.scratch, "template.%d.err" % len(self.templates)), "w")

        def fd3():
            os.dup2(w, 3)
            os.set_inheritable(3, True)

        p = subprocess.Popen([PY, "-u", os.path.join(HERE, "sim", "template.py"), kind, str(par)], stdin=subprocess.PIPE, stdout=err, stderr=err, pass_fds=(3,) if w == 3 else (),
                             close_fds=False, preexec_fn=fd3, env=self.env(hashseed), cwd=self.scratch + "/cwd", start_new_session=True)
        os.close(w)
        idx = len(self.templates)
        self.templates.append(p)
        f = os.fdopen(r)

        def reader():
            for line in f:
                self.results.put((idx, json.loads(line)))
            self.results.put((idx, dict(id="eof", status="eof")))

        threading.Thread(target=reader, daemon=True).start()
        return idx

    def send(self, idx, req):
        p = self.templates[idx]
        p.stdin.write((json.dumps(req) + "\n").encode())
        p.stdin.flush()

    def close(self):
        import signal

        for p in self.templates:
            try:
                p.stdin.close()
            except Exception:
                pass
        for p in self.templates:
            try:
                os.killpg(p.pid, signal.SIGTERM)
            except ProcessLookupError:
                pass
            try:
                p.wait(5)
            except Exception:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        shutil.rmtree(self.scratch, ignore_errors=True)

    def run(self, pid, scenarios, wall, stop_on_violation=True, hashseeds=(0, 1), par=None, verbose=False):
        """Runs the scenarios; list of results in order (None for those not run)."""
        mod = props.get(pid)
        kind = mod.PLAN.get("kind", "normal")
        ncpu = par or min(8, os.cpu_count() or 1)
        nt = min(len(hashseeds), max(1, len(scenarios)))
        key = (kind, tuple(hashseeds[:nt]), ncpu)
        if getattr(self, "pool_key", None) != key:
            self.pool = [self.start(kind, max(1, ncpu // nt), hashseeds[i]) for i in range(nt)]
            self.pool_key = key
            booted = 0
            t0 = time.monotonic()
            while booted < nt:
                try:
                    idx, msg = self.results.get(timeout=120)
                except queue.Empty:
                    raise Harness("templates do not start")
                if idx not in self.pool:
                    continue
                if msg["status"] != "ok":
                    raise Harness("%s\n%s" % (msg.get("msg"), msg.get("tb") or self.errors()))
                booted += 1
        out = [None] * len(scenarios)
        left = list(range(len(scenarios)))
        inflight = {i: set() for i in self.pool}
        deadline = time.monotonic() + wall
        stop = False
        self.serial = getattr(self, "serial", 0)
        while (left and not stop) or any(inflight.values()):
            for idx in self.pool:
                while left and not stop and len(inflight[idx]) < max(1, ncpu // nt) + 1:
                    i = left.pop(0)
                    self.serial += 1
                    rid = "%d.%d" % (i, self.serial)
                    inflight[idx].add(rid)
                    self.send(idx, dict(id=rid, tag="s%05d" % (self.serial % 100000), prop=pid, scenario=scenarios[i], verbose=verbose))
            if stop and time.monotonic() > stop + 60:
                self.pool_key = None
                return out
            if time.monotonic() > deadline:
                raise Harness("out of time after %d of %d scenarios" % (sum(x is not None for x in out), len(scenarios)))
            try:
                idx, msg = self.results.get(timeout=5)
            except queue.Empty:
                continue
            if msg["status"] == "eof":
                raise Harness("a template ended: " + self.errors())
            if idx not in self.pool:
                continue
            inflight[idx].discard(msg["id"])
            i = int(msg["id"].split(".")[0])
            out[i] = msg
            if msg["status"] != "ok":
                raise Harness("scenario %d: %s\n%s" % (i, msg.get("msg"), msg.get("tb")))
            if msg["violations"] and stop_on_violation:
                stop = stop or time.monotonic()
        return out

    def errors(self):
        s = ""
        for i in range(len(self.templates)):
            with open(os.path.join(self.scratch, "template.%d.err" % i), errors="replace") as f:
                s += f.read()[-2000:]
        return s


def scenario_list(pid, seed, tier, n=None):
    mod = props.get(pid)
    n = n or mod.PLAN[tier]
    out = []
    for i in range(n):
        rng = random.Random("%s:%d:%d" % (pid, seed, i))
        sc = mod.generate(rng, i, tier)
        sc["cli"] = rng.random() < 0.35
        out.append(sc)
    return out


# --------------------------------------------------------------------------
# minimisation
# --------------------------------------------------------------------------
SMALL = dict(frg=[], cn=0, ccn=0, nx=None, ft=None, mm=None, ndr=0.0, fwd=1.0, alt=False, src="planck", cfg="in")


def shrinks(sc):
    """Smaller scenarios, most aggressive first."""

    def rec(x, path):
        if isinstance(x, dict):
            for k in sorted(x):
                v = x[k]
                if k in ("targets", "faults", "ops", "runs", "stall", "die", "rules", "releases", "bad", "events", "payloads") and isinstance(v, list):
                    lo = 1 if k in ("targets", "ops", "runs", "payloads") else 0
                    if k == "payloads":
                        continue
                    n = len(v)
                    for size in sorted({n // 2, 1} - {0}, reverse=True):
                        for a in range(0, n, size):
                            if n - len(v[a : a + size]) >= lo:
                                yield path + [k], v[:a] + v[a + size :]
                if k == "chs" and len(v) > 1:
                    for i in range(len(v)):
                        yield path + [k], v[:i] + v[i + 1 :]
                if k in SMALL and v != SMALL[k]:
                    yield path + [k], SMALL[k]
                if k in ("plot", "full", "log", "debug", "cli") and v:
                    yield path + [k], False
                if k == "workers" and isinstance(v, int) and v > 2:
                    yield path + [k], 2
                if isinstance(v, (dict, list)):
                    for r in rec(v, path + [k]):
                        yield r
        elif isinstance(x, list):
            for i, v in enumerate(x):
                if isinstance(v, (dict, list)):
                    for r in rec(v, path + [i]):
                        yield r

    for path, val in rec(sc, []):
        new = json.loads(json.dumps(sc))
        tgt = new
        for k in path[:-1]:
            tgt = tgt[k]
        tgt[path[-1]] = val
        yield new


def minimise(lab, pid, sc, budget):
    t0 = time.monotonic()
    tried = 0
    best = None
    seen = set()
    progress = True
    while progress and time.monotonic() - t0 < budget:
        progress = False
        cands = []
        for c in shrinks(sc):
            k = json.dumps(c, sort_keys=True)
            if k not in seen:
                cands.append(c)
        for a in range(0, len(cands), 8):
            if time.monotonic() - t0 > budget:
                break
            batch = cands[a : a + 8]
            for c in batch:
                seen.add(json.dumps(c, sort_keys=True))
            tried += len(batch)
            try:
                res = lab.run(pid, batch, 120, stop_on_violation=False)
            except Harness:
                lab.pool_key = None
                continue
            hit = next((i for i, r in enumerate(res) if r and r["violations"]), None)
            if hit is not None:
                sc, best = batch[hit], res[hit]
                progress = True
                break
    return sc, best, tried


# --------------------------------------------------------------------------
# commands
# --------------------------------------------------------------------------
def known(pid):
    """Identified genuine defects that are not repaired: (identifier, text)."""
    out = []
    path = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            if line.strip():
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append((d["match"], d["what"]))
    return out


def decide(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = props.get(pid)
    t0 = time.monotonic()
    print("property=%s tier=%s VERIF_SEED=%d" % (pid, tier, seed), flush=True)
    scen = scenario_list(pid, seed, tier)
    lab = Lab()
    try:
        res = lab.run(pid, scen, 780 if tier == "quick" else 6 * 3600)
        listed = known(pid)
        viol, told = [], set()
        for i, r in enumerate(res):
            if r is None:
                continue
            fresh = []
            for v in r["violations"]:
                m = next((w for w in listed if w[0] in v), None)
                if m:
                    told.add(m[1])
                else:
                    fresh.append(v)
            if fresh:
                viol.append((i, fresh, r))
        for w in sorted(told):
            print("KNOWN-FINDING: property=%s %s" % (pid, w))
        replay = None
        if viol:
            i, vs, r = viol[0]
            print("scenario %d (seed %d): %s" % (i, seed, vs[0]), flush=True)
            small, best, tried = minimise(lab, pid, scen[i], 60 if tier == "quick" else 300)
            best = best or r
            # in fresh processes, on its own
            try:
                again = lab.run(pid, [small], 200, hashseeds=(0,), par=1)[0]
            except Harness as e:
                print("not replayed: %s" % e)
                again = best
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            replay = os.path.join(HERE, "replays", "%s-%d-%d.json" % (pid, seed, i))
            with open(replay, "w") as f:
                json.dump(dict(property=pid, seed=seed, index=i, tier=tier, scenario=small, original=scen[i], violations=best["violations"], digest=again["digest"],
                               reproduced=again["violations"] == best["violations"], minimised_in=tried), f, indent=1)
        done = [(s, r) for s, r in zip(scen, res) if r is not None]
        write_evidence(pid, tier, seed, mod, done, time.monotonic() - t0, len(viol), len(scen))
        if viol:
            for v in best["violations"][:5]:
                print("  " + v)
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        print("held on %d scenarios (%d universes) in %.1f s" % (len(done), sum(r["universes"] for _, r in done), time.monotonic() - t0))
        return 0
    finally:
        lab.close()


def write_evidence(pid, tier, seed, mod, done, wall, nviol, planned):
    stats = {}
    for _, r in done:
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
    sigs = {r["sig"] for _, r in done if r["nontrivial"]}
    uni = sum(r["universes"] for _, r in done)
    step = max(1, len(done) // 3)
    cov = dict(
        evaluations=len(done),
        distinct_nontrivial=len(sigs),
        rule=mod.PLAN["rule"],
        samples=[dict(scenario=s, signature=r["sig"], outcome=r.get("note")) for s, r in done[::step][:3]],
        simulated_runs=uni,
        runs_per_hour=round(3600.0 * uni / wall),
        seeds_per_hour=round(3600.0 * len(done) / wall),
        simulated_seconds=round(stats.get("sim_seconds", 0.0), 2),
        faults_fired={k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")},
        distinct_states_measure=mod.PLAN.get("measure", "distinct scenario signatures (see rule)"),
        counters={k: v for k, v in sorted(stats.items()) if not k.startswith("fault:")},
        real=mod.PLAN.get("real", "the whole package, HDF5, astropy, numpy and the Python runtime"),
        stubbed=mod.PLAN.get("stub", "disk errors and clock (LD_PRELOAD), 2D convolution looked up by content"),
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.PLAN.get("level", "exploration"), coverage=cov,
              assumptions=mod.PLAN.get("assumptions", []), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    d = json.load(open(path))
    lab = Lab()
    try:
        r = lab.run(d["property"], [d["scenario"]], 300, hashseeds=(0,), par=1, verbose=True)[0]
        for v in r["violations"]:
            print("  " + v)
        same = r["violations"] == d["violations"] and r["digest"] == d["digest"]
        print("exactly as recorded" if same else "differs from the recording")
        if r["violations"]:
            print("VIOLATION property=%s replay=%s" % (d["property"], os.path.abspath(path)))
            return 1
        return 0
    finally:
        lab.close()


def one(pid, i, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sc = scenario_list(pid, seed, tier, i + 1)[i]
    print(json.dumps(sc, indent=1))
    lab = Lab()
    try:
        r = lab.run(pid, [sc], 300, verbose=True, hashseeds=(0,))[0]
        for st, exc, con, log in r.pop("logs"):
            print("=== universe", st, exc)
            print(con[-3000:])
        print(json.dumps(r, indent=1))
    finally:
        lab.close()


def selftest(ids, n):
    """Same seeds, different worker counts and hash seeds: same executions."""
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    bad = 0
    for pid in ids:
        scen = scenario_list(pid, seed, "quick", n)
        digs = []
        for hs, par in (((0, 1), 8), ((7,), 2)):
            lab = Lab()
            try:
                res = lab.run(pid, scen, 1800, stop_on_violation=False, hashseeds=hs, par=par)
                digs.append([(r["digest"], r["violations"]) for r in res])
            finally:
                lab.close()
        diff = [i for i, (a, b) in enumerate(zip(*digs)) if a != b]
        print("%s: %d scenarios, %d differ %s" % (pid, len(scen), len(diff), diff[:5]), flush=True)
        bad += bool(diff)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        k = a.index("--tier")
        tier = a[k + 1]
        del a[k : k + 2]
    try:
        if a[0] == "replay":
            return replay(a[1])
        if a[0] == "one":
            one(a[1], int(a[2]), tier)
            return 0
        if a[0] == "selftest":
            ids = [x for x in a[1:] if not x.isdigit()] or props.IDS
            n = next((int(x) for x in a[1:] if x.isdigit()), 6)
            return selftest(ids, n)
        return decide(a[0], tier)
    except Harness as e:
        print("HARNESS ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
