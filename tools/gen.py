import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(Path(__file__).parent))
from props import PROPS  # noqa: E402

HOOKS = None
NOTES = (
    "Runtime monitoring: each check drives the real code from /repo/src in forked workers with seeded random, boundary and "
    "hostile workloads, and monitors judge every observed result against an independent reference model. "
    "Exit 3 = inconclusive (the monitors saw too little). Known and fixed findings: known_findings.txt. See DESIGN.md."
)

ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
PROPS.sort(key=lambda p: p["id"])
with open(ROOT / "properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(
            json.dumps(
                {
                    "id": p["id"],
                    "title": p["title"],
                    "statement": p["statement"],
                    "quantifier": {"over": p["over"], "text": p["qtext"]},
                    "why_tests_cant": p["why"],
                    "anchors": {
                        "files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                    },
                }
            )
            + "\n"
        )
manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"./check {p['id']} quick",
            "thorough_cmd": f"./check {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        }
        for p in PROPS
        if p["claimed"]
    ],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in PROPS if not p["claimed"]],
    "notes": NOTES,
}
if HOOKS:
    manifest["hooks"] = HOOKS
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(PROPS), "properties,", len(manifest["checks"]), "checks")
