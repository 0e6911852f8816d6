"""Generate a list of networks in a process of its own: genmany.py cases.json out_dir."""
import json
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from pbt import boot  # noqa: E402

boot.load_acetone()
from checks.P24 import generate  # noqa: E402
from pbt.engine import Reject  # noqa: E402

for k, case in enumerate(json.loads(Path(sys.argv[1]).read_text())):
    try:
        generate(case, Path(sys.argv[2]) / str(k))
    except Reject:      # outside of the domain, whatever the process
        pass
    except Exception as e:  # noqa: BLE001
        (Path(sys.argv[2]) / f"{k}.error").write_text(f"{type(e).__name__}: {e}")
