"""write properties.jsonl and MANIFEST.json from props_def.py."""
import json
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
from props_def import P  # noqa: E402

ROOT = HERE.parent
lines, checks, missing = [], [], []
for p in P:
    anchors = {"files": p["files"], "mechanism": p["mechanism"], "hook_needed": None}
    anchors.update(p["anchors"])
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"], "anchors": anchors,
    }, ensure_ascii=False))
    if p["claimed"] and (ROOT / "harness/props" / f"{p['id'].lower()}.py").exists():
        checks.append({
            "property": p["id"], "quick_cmd": f"./check {p['id']}",
            "thorough_cmd": f"./check {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"], "level": "model_checking",
            "level_note": p["note"],
        })
    else:
        missing.append({"property": p["id"], "reason": p["reason"] or "check not built yet"})
(ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
(ROOT / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "bash tools/setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the checks observe the public API and patch the environment it runs in", "source_commits": []},
    "checks": checks, "not_applicable": missing,
}, indent=1) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
print(len(checks), "checks;", len(missing), "not claimed")
