#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import PROPS, NOT_APPLICABLE
with open(f"{V}/properties.jsonl", "w") as f:
    for i, p in list(PROPS.items()) + list(NOT_APPLICABLE.items()):
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        f.write(json.dumps(dict(id=i, title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p.get("observe", []), hook_needed=p.get("hook")))) + "\n")
T = "symbolic execution of the crates' LLVM IR (own executor), every path and assertion decided with z3"
m = dict(version=1, setup_cmd="bash tools/setup.sh",
    checks=[dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough", technique=T, level="model_checking",
        level_note="All inputs within the bounds in evidence (" + "; ".join(r["bound"].replace("{p0}", str(r["quick"].get("p0", "N"))).replace("{p1}", str(r["quick"].get("p1", "N"))) for r in p["runs"])[:600] + "). Trusts rustc/LLVM lowering, the executor's libc and hash models, and z3; counterexamples are replayed natively. Nothing is claimed outside the bounds.") for i, p in PROPS.items()],
    not_applicable=[dict(property=i, reason=p["reason"]) for i, p in NOT_APPLICABLE.items()],
    notes="registry.py is the source of this file (tools/gen.py).")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
