"""write MANIFEST.json from qv/props.py (run after changing it)"""
import json
import pathlib
import sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from qv import props  # noqa: E402
props_l = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
ids = [p["id"] for p in props_l]
checks, na = [], []
for i in ids:
    P = props.PROPS.get(i)
    if P is None or "na" in P:
        na.append(dict(property=i, reason=(P or {}).get("na", "not claimed yet")))
        continue
    checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i}", thorough_cmd=f"python3-vt check.py {i} --thorough",
                       technique=P.get("technique", "contracts on the real functions, discharged by path-complete symbolic execution of the real code with SMT"),
                       level=props.level(P), level_note=P["note"]))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, cvc5, numpy' && clang++-18 --version >/dev/null && mkdir -p .build", checks=checks, not_applicable=na,
         notes="One runner (check.py) for all properties; harnesses in cxx/ (on the C++ sources) and py/ (on the Python modules). Design and findings: DESIGN.md, known_findings.txt.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
