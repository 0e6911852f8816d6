#!/usr/bin/env python3
"""Confirm a planted bug in a scratch copy of /repo (mounted over /repo in a private namespace).

seedtest.py ID...           applies, builds, passes the stable tests, demo fails / passes
seedtest.py --check ID...   runs the quick check of its property (or PROPERTY=...) against it
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent


def inns(base, cmd, timeout=900, env=None):
    """Run cmd with base/repo mounted on /repo."""
    sc = (f"mount --bind {base}/repo /repo && mkdir -p {base}/reports {base}/tmp && "
          f"mount --bind {base}/reports /opt/vp/reports && cd /repo && {cmd}")
    try:
        p = subprocess.run(["unshare", "-Urm", "bash", "-c", sc], capture_output=True, text=True, timeout=timeout,
                           env={**os.environ, **(env or {})})
    except subprocess.TimeoutExpired as e:
        return 124, f"TIMEOUT {e}"
    return p.returncode, p.stdout + p.stderr


def copy(sid=None):
    base = Path(tempfile.mkdtemp(prefix="seedtest_", dir="/tmp"))
    shutil.copytree("/repo", base / "repo", symlinks=True)
    if sid:
        subprocess.run(["git", "-C", str(base / "repo"), "apply", str(ROOT / "seeded" / sid / "patch.diff")], check=True)
    return base


def demo(base, sid):
    d = base / "demo"
    shutil.copytree(ROOT / "seeded" / sid, d)
    for f in [*d.glob("*.diff"), d / "meta.json"]:
        f.unlink()
    return inns(base, f"bash {d}/demo.sh", timeout=300)


def confirm(sid):
    out = []
    clean, bad = copy(), copy(sid)
    try:
        rc, o = demo(clean, sid)
        out.append(f"demo clean rc={rc}" + ("" if rc == 0 else "\n" + o[-1500:]))
        ok = rc == 0
        rc, o = demo(bad, sid)
        out.append(f"demo patched rc={rc}" + ("" if rc else "\n" + o[-800:]))
        ok &= rc != 0
        rc, o = inns(bad, "bash /opt/vp/build.sh")
        out.append(f"build rc={rc}")
        ok &= rc == 0
        rc, o = inns(bad, f"bash /opt/vp/test.sh {bad}/t.json")
        t = json.loads((bad / "t.json").read_text())
        miss = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(t["passed"]))
        out.append(f"stable tests missing {len(miss)} {miss[:3]}")
        ok &= not miss
    finally:
        shutil.rmtree(clean, ignore_errors=True)
        shutil.rmtree(bad, ignore_errors=True)
    return f"{'OK ' if ok else 'BAD'} {sid}: " + "; ".join(out)


def check(sid):
    meta = json.loads((ROOT / "seeded" / sid / "meta.json").read_text())
    res = []
    for prop in os.environ.get("PROPERTY", meta["property"]).split(","):
        bad = copy(sid)
        try:
            # a copy of /verif, so that evidence of this run does not replace that of the unchanged tree
            shutil.copytree(ROOT, bad / "verif", ignore=shutil.ignore_patterns("seeded", "evidence", ".git"))
            (bad / "verif" / "evidence").mkdir()
            rc, o = inns(bad, f"cd {bad}/verif && /opt/venv/bin/python run.py {prop} --tier quick 2>/dev/null")
            v = [x for x in o.splitlines() if x.startswith("--- ")]
            res.append(f"{'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc} {sid} by {prop}: {(v or [o[-300:]])[0][:230]}")
        finally:
            shutil.rmtree(bad, ignore_errors=True)
    return "\n".join(res)


if __name__ == "__main__":
    a = sys.argv[1:]
    f = confirm
    if a and a[0] == "--check":
        f, a = check, a[1:]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "2" if f is confirm else "1"))) as ex:
        for r in ex.map(f, a or sorted(p.name for p in (ROOT / "seeded").iterdir())):
            print(r, flush=True)
