#!/usr/bin/env python3
"""Writes checks.json (what run.py runs) and MANIFEST.json from the table below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
COMMON_OUT = ("longer histories, more files, offsets outside the listed chunk range (chunk arithmetic repeats with the chunk index), "
              "stable memory above 8 GiB, host allocation failure")
T = {}


def prop(pid, quick, thorough=(), bounds="", deep="", outside=COMMON_OUT, covers=None, note="", **kw):
    T[pid] = dict(quick=list(quick), thorough=list(thorough), bounds={"quick": bounds, "thorough": (bounds + "; thorough: " + deep) if deep else bounds},
                  outside=outside, covers=covers or {}, note=note, **kw)


exec(open(os.path.join(V, "tools", "checks_table.py")).read())

checks = {}
for k, v in T.items():
    checks[k] = {a: b for a, b in v.items() if a != "note"}
json.dump(checks, open(V + "/checks.json", "w"), indent=1)
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
man = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "checks": [],
    "not_applicable": [],
    "notes": "run.py rebuilds the harness against /repo's working tree, executes its WebAssembly symbolically with engine/ (Z3) and replays every counterexample against the real code. No hooks are needed in /repo.",
}
TECH = "symbolic execution of the crate's compiled WebAssembly with Z3 deciding every branch and assertion; counterexamples replayed natively"
for k in ids:
    if k in T:
        man["checks"].append({
            "property": k,
            "quick_cmd": f"python3 run.py check {k}",
            "thorough_cmd": f"python3 run.py check {k} --tier thorough",
            "evidence_file": f"evidence/{k}.json",
            "technique": TECH,
            "level": "model_checking",
            "level_note": (T[k]["note"] + " " if T[k]["note"] else "") + "Holds for every value within the bounds: " + T[k]["bounds"]["quick"] +
            ". Trusted: the executor (cross-checked by native replays of explored paths), Z3, the wasm32 code generator, the byte-array model of stable memory.",
        })
    else:
        man["not_applicable"].append({"property": k, "reason": NA.get(k, "no check built yet")})
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(man["checks"]), "checks;", [x["property"] for x in man["not_applicable"]])
