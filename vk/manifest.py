"""Writes MANIFEST.json from the property table."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import jobs as J
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C24": "The statement is about the probability of a lattice-noise event over random inputs. A solver decides assertions over every value of the inputs; it does not measure distributions. The functional side (what happens when the event does or does not occur) is decided by C03-C05.",
    "C25": "Execution time, cache state and power of a physical machine are outside the semantics of source code or IR; nothing symbolic can be asserted about them. The part expressible over the code (no secret-dependent branches, divisions or addresses) is C13.",
}
NOTE = {
    "proof": "Decided for all values of all input bytes with no bound beyond the fixed parameter-set sizes. ",
    "other": "Solver verdict for all values of all input bytes on each listed rejection-sampling path. ",
}
def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if i in J.PROPS:
            s = J.PROPS[i]
            checks.append({
                "property": i,
                "quick_cmd": f"python3 check.py {i}",
                "thorough_cmd": f"python3 check.py {i} --thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": s.get("technique") or "symbolic execution of the compiled LLVM IR with SMT (cvc5, z3)",
                "level": s["level"],
                "level_note": NOTE[s["level"]] + s["explain"] + " Bounds: " + s["bounds"] + ". Assumes: " + "; ".join(s["assume"]) + ".",
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
    m = {"version": 1, "setup_cmd": "python3 vk/setup.py", "checks": checks, "not_applicable": na}
    open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
main()
