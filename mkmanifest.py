"""Regenerates MANIFEST.json from jobs.py, properties.jsonl and the reasons below."""
import json, jobs
NA = {
}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for i in ids:
    if i in jobs.PROPS:
        p = jobs.PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": "symbolic execution of the compiled LLVM IR of rtforth, obligations decided by z3/cvc5",
            "level": "model_checking",
            "level_note": "All values within the bounds: " + p["bounds"] + (". Outside: " + p["outside"] if p["outside"] else "") +
               ". Trusts rustc/LLVM, the executor's IR semantics (cross-checked by native replay of path witnesses) and the SMT solvers.",
        })
na = [{"property": i, "reason": NA.get(i, "not claimed yet: harness under construction")} for i in ids if i not in jobs.PROPS]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo are needed: the harness crate uses rtforth's public interface."},
  open("MANIFEST.json", "w"), indent=1)
