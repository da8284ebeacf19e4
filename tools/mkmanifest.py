"""writes MANIFEST.json from the catalogue"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from analyzer.catalog import PROPS, NOT_APPLICABLE
T = {"model": "static value-dependence-graph comparison of each operation with a reference model (symbolic normal forms of every returned value, field write and raise condition; nothing is executed)",
     "pure_queries": "interprocedural side-effect / alias analysis", "restores": "path-sensitive save/restore (typestate) dataflow over normal and exceptional exits",
     "rerun": "must-write dataflow of reset functions against fields written by timesteps", "ambient_effects": "syntax-tree query for ambient effects + effect analysis",
     "shared_data": "alias/effect analysis of shared data", "overrides": "signature-compatibility analysis over the class hierarchy", "exports": "import resolution",
     "call_shapes": "call-site / signature matching", "load_shape_data": "static check of packaged tables", "climate_data": "static check of packaged tables", "map_data": "static check of packaged tables"}
checks = []
from analyzer.laws import Laws
L = Laws()
LAW = "algebraic laws stated over the public operations, proved by expanding the current source to normal forms (polyhedral path conditions)"
for p, d in PROPS.items():
    t = ([T["model"]] if d["obs"] else []) + [T[r] for r in d.get("rules", [])] + ([LAW] if L.of(p) else [])
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --thorough", technique="static analysis: " + "; ".join(dict.fromkeys(t)),
                       level="other", level_note="decided from the source for all inputs in real arithmetic; an operation outside the decidable fragment is listed as undecided in the evidence and raises no alarm"))
json.dump(dict(version=1, setup_cmd="python3 -m compileall -q analyzer >/dev/null || true", checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
               notes="Checks read /repo/src only; no analysed code is imported or run. See DESIGN.md."), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
