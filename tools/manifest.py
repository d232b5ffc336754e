#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the plan."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from plan import PLAN, NA
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Verification hooks"], capture_output=True, text=True).stdout.split()
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py",
    "hooks": {"guard": "cfg(rn_verif)", "enable": "RUSTFLAGS=--cfg rn_verif (set by tools/build.py for the native build and for the build to LLVM IR)", "source_commits": hook},
    "checks": [],
    "not_applicable": [],
    "notes": "Every check compiles /repo's working tree and the harnesses in harness/ to LLVM IR, executes the IR symbolically with engine/ (z3 decides every obligation that simplification leaves open), replays counterexamples and sampled paths against the native build, and writes evidence/<id>.json. tools/plan.py holds the bounds.",
}
for p in props:
    i = p["id"]
    if i in PLAN:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": "bounded symbolic execution of the compiled LLVM IR, decided by an SMT solver (z3)",
            "level": "model_checking",
            "level_note": "Holds for all values within: " + "; ".join(f"{j.name}: {j.bounds}" for j in PLAN[i]) + ". Trusted: rustc's lowering to LLVM IR, the symbolic executor (its paths are sampled and compared with the native code on every run), z3, the stubs listed in DESIGN.md.",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
