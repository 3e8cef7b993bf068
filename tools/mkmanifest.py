"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
 "C44": "Deciding it means running the whole enumeration (days of computing) and comparing with a published database that is not part of this copy; there is no symbolic input, so there is nothing for a solver to decide.",
 "C45": "Independence of operators modulo integration by parts, equations of motion and Fierz identities is not computed by any code in the repository, so there is no code to encode; only the placement of derivatives read off the Hilbert series (C13) and the invariants built (C07-C09) are.",
 "C46": "The topology lists are Mathematica output shipped as data files; there is no code to execute symbolically and no definition in the repository against which a solver could decide completeness.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "harness", i + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "symbolic execution of the real Python code (instrumented at load time), z3 deciding branches and assertions, counterexamples replayed on the plain code",
            "level": "model_checking",
            "level_note": "Holds for every value within the bounds listed in the evidence file (bounds, configurations); outside them nothing is claimed. Trusts z3, the proxies for numbers and text (sampled paths are replayed on the plain code and compared) and the stand-ins listed under assumptions.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built for it yet.")})
m = {"version": 1, "setup_cmd": "chmod +x check && ./check --selftest", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. No hooks are needed in /repo: the code is instrumented when it is loaded. known_findings.json lists recorded and repaired defects."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks")
