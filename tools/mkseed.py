"""Helper to write planted bugs: mk(id, property, edits, demo, needs, breaks)."""
import json
import shutil
import subprocess
import tempfile
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
LIB = (Path(__file__).resolve().parent / "seedlib.py").read_text()


def mk(sid, prop, edits, demo, needs, breaks):
    d = ROOT / "seeded" / sid
    d.mkdir(parents=True, exist_ok=True)
    base = tempfile.mkdtemp(prefix="mkseed_", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", base + "/r"], check=True)
        for f, old, new in edits:
            p = Path(base) / "r" / f
            s = p.read_text()
            if s.count(old) != 1:
                raise SystemExit(f"{sid}: {s.count(old)} occurrences in {f} of {old!r}")
            p.write_text(s.replace(old, new))
        diff = subprocess.run(["git", "-C", base + "/r", "diff"], capture_output=True, text=True, check=True).stdout
        # lines removed have to be of the original repository
        for f in {e[0] for e in edits}:
            n = subprocess.run(["git", "-C", base + "/r", "blame", "-s", "HEAD", "--", f], capture_output=True, text=True).stdout
            blame = n.splitlines()
            cur = None
            for line in diff.splitlines():
                if line.startswith("--- a/"):
                    cur = line[6:]
                elif line.startswith("@@"):
                    no = int(line.split()[1].split(",")[0][1:])
                elif cur == f and line.startswith("-"):
                    if not blame[no - 1].startswith("^"):
                        print("  note: not an original line:", blame[no - 1][:110])
                    no += 1
                elif line.startswith(" "):
                    no += 1
        (d / "patch.diff").write_text(diff)
        (d / "demo.py").write_text(demo)
        (d / "seedlib.py").write_text(LIB)
        (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$(dirname "$0"):/repo/src"\n'
                                   'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    finally:
        shutil.rmtree(base, ignore_errors=True)
