#!/opt/venv/bin/python
"""setup_cmd: the tools and packages which the checks need are there."""
import shutil
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from pbt import boot  # noqa: E402

import hypothesis  # noqa: E402
import numpy  # noqa: E402
import onnx  # noqa: E402
import onnxruntime  # noqa: E402

for t in ("gcc", "clang", "make", "objcopy"):
    assert shutil.which(t), t
boot.load_acetone()
print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "onnx", onnx.__version__,
      "onnxruntime", onnxruntime.__version__)
