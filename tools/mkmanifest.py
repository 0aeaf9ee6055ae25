"""Writes MANIFEST.json from the checks that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

PURE = {
    "C21": "pure function of its arguments: no schedule, time, I/O or fault the result could depend on, so a simulator has nothing to decide",
    "C22": "pure function of the parsed optical path: no concurrency, time, I/O or fault involved (its independence from the history of the process is decided by C08 and C10)",
    "C23": "pure function of the text of the description: nothing is scheduled, timed or shared (failing reads are decided by C17, leaks between reads by C10)",
    "C24": "pure conversion between formats: a property of inputs only, nothing for a fault or a schedule to change",
    "C25": "numerical property of a pure function of two arrays",
    "C26": "numerical property of a pure function of an image",
}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid in PURE:
        na.append(dict(property=pid, reason=PURE[pid]))
        continue
    try:
        mod = importlib.import_module("sim.props." + pid.lower())
    except ModuleNotFoundError as e:
        assert "sim.props" in str(e), e
        na.append(dict(property=pid, reason="check not built yet"))
        continue
    checks.append(dict(
        property=pid, quick_cmd="./check.py %s --tier quick" % pid, thorough_cmd="./check.py %s --tier thorough" % pid, evidence_file="evidence/%s.json" % pid,
        technique=mod.PLAN.get("technique", "deterministic simulation: seeded search over generated worlds, histories and injected faults, against results of pristine processes"),
        level=mod.PLAN.get("level", "exploration"),
        level_note=mod.PLAN.get("level_note", "seeded search, not exhaustive; every violation is a concrete execution of the real code, minimised and replayable. ") + " Trusts: " + "; ".join(mod.PLAN.get("assumptions", [])) + "."))
json.dump(dict(version=1, setup_cmd="python3 -m py_compile check.py && gcc --version >/dev/null", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every seam is interposed from outside (LD_PRELOAD disk and clock, import-time socket and executor replacement, sys.settrace line injection). "
                     "check.py replay FILE reproduces a violation; check.py selftest checks the determinism of the simulator."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
