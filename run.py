#!/opt/venv/bin/python
"""Run one check:  run.py P01 [--tier quick|thorough] [--replay FILE] [--only FAMILY ...]."""
import argparse
import importlib
import os
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
os.environ.setdefault("PYTHONHASHSEED", "0")


def run():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    a = ap.parse_args()
    from pbt import boot
    try:
        boot.load_acetone()
    except Exception:  # the library itself does not import: no answer about the property
        import traceback
        traceback.print_exc()
        return 2
    from pbt import engine
    check = importlib.import_module(f"checks.{a.property}").CHECK
    return engine.main(check, tier=a.tier, replay=a.replay, only=a.only)


if __name__ == "__main__":
    try:
        code = run()
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
