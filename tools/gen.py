#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
sys.dont_write_bytecode = True
import checks, props
def bounds(j):
    d = ["%s=%s" % kv for kv in sorted(j.defs.items())] if j.defs else []
    if j.threads:
        d.append("preemptions<=%d" % j.preempt)
    return "%s: %s%s" % (j.name, j.bounds, " [quick: %s]" % ", ".join(d) if d else "")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]}, "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p.get("observe", [])}}) + "\n")
man = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
for p in props.PROPS:
    i = p["id"]
    if i in checks.JOBS:
        man["checks"].append({
            "property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "technique": "symbolic execution of the LLVM IR of /repo's code, assertions and branches decided by Z3" + (", schedules explored up to a preemption bound" if any(j.threads for j in checks.JOBS[i]) else "") + "; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Bounded: holds for all inputs" + (" and all schedules" if any(j.threads for j in checks.JOBS[i]) else "") + " within: " + " | ".join(bounds(j) for j in checks.JOBS[i] if not j.known) + ". Outside the bounds nothing is claimed. Trusted: clang's IR, the engine in /verif/engine (its witnesses are replayed on a native gcc/clang build), Z3, the environment models in /verif/rt."})
    elif i in checks.EXTERNAL:
        man["checks"].append({
            "property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "technique": "symbolic execution of /repo's Python script (CrossHair's proxies), branches and assertions decided by Z3, all paths; counterexamples replayed with the system's Python on real files",
            "level": "model_checking",
            "level_note": "Bounded: holds for all inputs within: " + checks.EXTERNAL[i] + ". Outside the bounds nothing is claimed. Trusted: CrossHair's models of Python and of re (witnesses are replayed by the real interpreter on real files), Z3, the file system in memory in py/labels.py."})
    else:
        man["not_applicable"].append({"property": i, "reason": p.get("na", "no check built yet")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(props.PROPS), "properties,", len(man["checks"]), "checks")
