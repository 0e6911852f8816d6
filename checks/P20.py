"""P20 - models in double precision are computed in double precision."""
from hypothesis import strategies as st

from pbt import families as F
from pbt.engine import Check, Family
from checks.P01 import QUICK
from checks.P04 import M, with_algorithm


@st.composite
def written(draw, specs):
    """With the samples, parameters and outputs in decimal instead of hexadecimal notation at times."""
    spec = draw(specs)
    spec["decimal"] = draw(st.integers(0, 2)) == 0
    spec["labels"] = [*spec["labels"], "decimal" if spec["decimal"] else "hexadecimal"]
    return spec


def run(spec):
    return F.run_vs_ort(spec, want_c=True, want_py=True, to_hex=not spec.get("decimal"))


D = ("float64",)
fams = [Family(op, (lambda op=op: written(F.single_op(op, pre=True, opts={"groups": True} if op == "conv" else None, dtypes=D))),
               run, max(20, n * 2 // 3), min_nontrivial=0.15) for op, n in QUICK.items()]
fams.append(Family("chain", lambda: written(F.chain(2, 7, opts={"conv": {"groups": True}}, dtypes=D, branch=1)), run, 150,
                   min_nontrivial=0.15))


def run_options(spec):
    kw = {"versions": {"Conv2D": spec["alg"]}} if spec.get("alg") else {}
    return F.run_vs_ort(spec, want_c=True, want_py=True, optimization=True, to_hex=not spec.get("decimal"), **kw)


# the other ways to a layer: optimization pass and implementations of the convolution
fams.append(Family("optimized", lambda: written(with_algorithm(F.chain(1, 4, unary=("conv", *M), branch=1, dtypes=D,
                                                                       opts={"conv": {"groups": True}}))),
                   run_options, 400, min_nontrivial=0.15))

CHECK = Check(
    "P20", "Double precision models are computed in double precision",
    "One double precision ONNX model per case (one family per operator, graphs of 2-7 operators, and optimized graphs with every implementation of the convolution); the C and the "
    "python outputs (in hexadecimal or decimal notation) are compared with ONNX Runtime (onnx.reference where it lacks a double kernel, cross-checked "
    "against ONNX Runtime in single precision) within 1e-11 of the largest intermediate value, scaled by the "
    "conditioning of the model: four orders of magnitude below single precision rounding. Non-trivial: the reference "
    "output holds at least two distinct values.",
    fams,
    assumptions=["ONNX Runtime 1.18 CPU / onnx.reference implement the ONNX specification",
                 "gcc compiles the generated program faithfully (-O1, no fp contraction)"])
