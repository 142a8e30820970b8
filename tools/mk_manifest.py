"""Regenerate MANIFEST.json from the property modules present."""
import json, importlib, os, sys
from pathlib import Path
H = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(H)); sys.path.insert(0, "/repo/src")
props = [json.loads(l) for l in (H / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    f = H / "mon" / "props" / f"{i.lower()}.py"
    if not f.exists():
        na.append({"property": i, "reason": "no check built yet"})
        continue
    m = importlib.import_module(f"mon.props.{i.lower()}")
    checks.append({"property": i, "quick_cmd": f"/opt/venv/bin/python check.py {i} --quick",
                   "thorough_cmd": f"/opt/venv/bin/python check.py {i} --thorough",
                   "technique": m.TECHNIQUE, "level": m.LEVEL,
                   "level_note": m.LEVEL_NOTE})
out = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
(H / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
print(len(checks), "checks", len(na), "n/a")
