"""P09 - NNET networks: C code and reference inference compute the network of the file, normalization included."""
import numpy as np
from hypothesis import strategies as st

from pbt import judge as J
from pbt import nnet as N
from pbt.cgen import BuildError, GenError, RunError, run_acetone, scratch
from pbt.engine import Check, Family, Info, Violation


@st.composite
def cases(draw):
    return {"net": draw(N.networks()), "opt": draw(st.booleans()), "bin": draw(st.integers(0, 4)) == 0,
            "path": draw(st.booleans())}


def run(case):
    net = case["net"]
    with scratch() as d:
        v = N.write(net, d / "model.nnet")
        ref, tol = N.reference(net, v)
        what = f"{net}"
        f = d / "model.nnet"
        try:
            r = run_acetone(f if case["path"] else str(f), v["x"], d / "code", want_c=True, want_py=True,
                            use_make=case["bin"], bin_dataset=case["bin"], normalize=net["normalize"],
                            optimization=case["opt"])
        except (GenError, BuildError, RunError) as e:
            raise Violation(f"{type(e).__name__}: {e}\n{what}") from e
    for name, rows in (("C", r.c), ("python", r.py)):
        dif = J.diff(rows, ref, tol)
        if dif:
            raise Violation(f"{name} disagrees with the NNET file: {dif}\n{what}")
    clamped = 0
    if net["normalize"]:
        clamped = int(np.sum((v["x"] < v["min"]) | (v["x"] > v["max"])))
    return Info([f"layers{len(net['sizes']) - 1}", net["fmt"], net["scale"], f"normalize:{net['normalize']}",
                 f"headers{len(net['header'])}", "clamped" if clamped else "inside", "bin" if case["bin"] else "text"],
                len({float(a) for r in ref for a in r}) > 1 and (clamped > 0 or not net["normalize"]),
                {"sizes": net["sizes"], "normalize": net["normalize"], "samples": net["n"], "clamped": clamped})


fams = [Family("nnet", cases, run, 600)]

CHECK = Check(
    "P09", "NNET networks are computed as their file defines",
    "NNET files of 1-4 dense layers written with drawn sizes, header comments, number formats and magnitudes of the "
    "normalization constants; samples inside and outside of the bounds; with and without normalization, binary or "
    "text parameters. C and python outputs compared with the definition of the format in double precision, within a "
    "rigorous bound of the rounding errors in single precision. Non-trivial: outputs are not all equal and, with "
    "normalization, some input is clamped.",
    fams, assumptions=["gcc compiles the generated program faithfully"])
