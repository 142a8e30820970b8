#!/opt/venv/bin/python
"""plant.py SPEC.py [ID...] : build seeded/<ID> from edit specs and validate them in a scratch copy.

SPEC defines BUGS = {id: {"property","needs","what_it_breaks","edits":[(file,old,new)],"demo":str}}.
For each: make the patch, demo passes on /repo, demo fails on the copy, stable tests pass on the copy,
then run the property's quick check on the copy.  Results: /tmp/plant/<id>.json
--notest skips the test suite, --nocheck the check.
"""
import json, os, runpy, shutil, subprocess, sys
from pathlib import Path
H = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
flags = {a for a in sys.argv[1:] if a.startswith("--")}
spec = runpy.run_path(args[0])["BUGS"]
ids = args[1:] or list(spec)
stable = json.load(open("/opt/vp/BASELINE.json"))
stable = stable.get("stable") or stable.get("passed")
Path("/tmp/plant").mkdir(exist_ok=True)

def sh(cmd, cwd, extra=None, timeout=900):
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "VERIF_SCALE")}
    env.update(extra or {})
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)

for bid in ids:
    b = spec[bid]
    root = Path(f"/tmp/plant/{bid}.copy")
    if root.exists():
        shutil.rmtree(root)
    shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    res = {"id": bid, "property": b["property"]}
    try:
        for f, old, new in b["edits"]:
            p = root / "src/pygerber" / f
            t = p.read_text()
            if t.count(old) != 1:
                raise SystemExit(f"{bid}: {f}: old text occurs {t.count(old)} times")
            p.write_text(t.replace(old, new))
        d = H / "seeded" / bid
        d.mkdir(parents=True, exist_ok=True)
        diff = sh(["git", "diff"], root).stdout
        (d / "patch.diff").write_text(diff)
        (d / "demo.py").write_text(b["demo"].lstrip("\n"))
        (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        (d / "meta.json").write_text(json.dumps({k: b[k] for k in ("property", "needs", "what_it_breaks")}, indent=1) + "\n")
        r0 = sh(["bash", str(d / "demo.sh")], "/repo")
        r1 = sh(["bash", str(d / "demo.sh")], root, {"PYTHONPATH": str(root / "src")})
        res["demo_clean"], res["demo_bug"] = r0.returncode, r1.returncode
        if r0.returncode:
            res["err"] = r0.stderr[-500:]
        res["demo_msg"] = r1.stderr[-300:]
        if "--notest" not in flags:
            x = f"/tmp/plant/{bid}.xml"
            sh([PY, "-m", "pytest", "-q", "-n", "8", "-p", "no:cacheprovider", "-p", "pygerber_offline",
                "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2",
                f"--junitxml={x}", "test/"], root,
               {"PYTHONPATH": f"{root}/src:/opt/vp/env", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
                "OMP_NUM_THREADS": "1", "LANG": "C.UTF-8", "TZ": "UTC"})
            o = f"/tmp/plant/{bid}.tests.json"
            sh(["python3", "/opt/vp/results.py", o, f"junit:{x}"], root)
            ok = set(json.load(open(o))["passed"])
            miss = [t for t in stable if t not in ok]
            res["tests_missing"] = len(miss)
            res["missing"] = miss[:4]
        if "--nocheck" not in flags:
            r = sh([PY, str(H / "check.py"), b["property"], "--quick"], H,
                   {"VERIF_REPO": str(root), "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            res["check_rc"] = r.returncode
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res["violation"] = v[:1]
            res["check_tail"] = r.stdout[-400:] if not v else ""
    finally:
        shutil.rmtree(root, ignore_errors=True)
    json.dump(res, open(f"/tmp/plant/{bid}.json", "w"), indent=1)
    print(json.dumps(res), flush=True)
