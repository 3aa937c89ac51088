#!/usr/bin/env python3
"""Write MANIFEST.json: every property with a harness is claimed."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {
 "C01": "property-based round-trip testing + coverage-guided fuzzing",
 "C03": "model-based (stateful) property testing against a reference collector + coverage-guided fuzzing",
 "C04": "model-based (stateful) property testing with limit model + coverage-guided fuzzing",
 "C05": "model-based (stateful) property testing against a reference MIDI 1.0 parser + coverage-guided fuzzing",
 "C06": "metamorphic property testing over byte streams and partitions + coverage-guided fuzzing",
 "C18": "fuzzing of arbitrary and mutated SysEx under sanitizers against a layout oracle",
 "C21": "model-based (stateful) property testing over generated schedules + coverage-guided fuzzing",
 "C23": "metamorphic (interleaved = alone) stateful property testing, generated thread schedules under the thread sanitizer + coverage-guided fuzzing",
 "C24": "model-based (stateful) end-to-end round-trip testing over generated traffic, merges and conversations + coverage-guided fuzzing",
 "C22": "differential property testing across build configurations with allocation tracking",
}
DEF = "property-based testing against an independent layout/arithmetic oracle + coverage-guided fuzzing"
NOTE = ("Explores generated inputs (seeded by VERIF_SEED, biased to boundaries and to literals of the sources; small domains "
        "enumerated completely) on the library built from the working tree with address/undefined sanitizers. A pass means no "
        "counterexample among the cases counted in the evidence file, not a proof. Trusts the harness' independent oracle, "
        "clang 18 and libstdc++.")
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "harness", pid + ".cpp")):
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": TECH.get(pid, DEF), "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": pid, "reason": "harness not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo; the harnesses use the public API only. Genuine defects found were repaired by fix: commits, see known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(na), "not")
