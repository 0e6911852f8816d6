"""P02 - the python reference inference computes the ONNX model's function."""
from pbt import families as F
from pbt.engine import Check, Family
from checks.P01 import QUICK, any_large


def run(spec):
    return F.run_vs_ort(spec, want_c=False, want_py=True)


fams = [Family(op, (lambda op=op: F.single_op(op, pre=True, opts={"groups": True} if op == "conv" else None)), run,
               n * 12) for op, n in QUICK.items()]
fams.append(Family("chain", lambda: F.chain(2, 9, opts={"conv": {"groups": True}}), run, 3000))
fams.append(Family("graph", lambda: F.chain(3, 9, branch=4, multi=("binop", "concat", "matmul"),
                                            opts={"conv": {"groups": True}}), run, 3000))
fams.append(Family("large", any_large, run, 1500))

CHECK = Check(
    "P02", "Python reference inference computes the function of the ONNX model",
    "One ONNX model per case (one family per operator, chains of 2-9 operators, branching graphs of 3-9 operators) "
    "with drawn shapes, attributes, constants and samples; the lines of output_python.txt are compared with ONNX "
    "Runtime within a tolerance derived from the conditioning of the model. Non-trivial: the reference output holds "
    "at least two distinct values.",
    fams,
    assumptions=["ONNX Runtime 1.18 CPU / onnx.reference implement the ONNX specification"])
