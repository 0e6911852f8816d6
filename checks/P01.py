"""P01 - the generated C program computes the ONNX model's function."""
from hypothesis import strategies as st

from pbt import families as F
from pbt.engine import Check, Family

QUICK = {"conv": 120, "maxpool": 60, "avgpool": 60, "gap": 20, "batchnorm": 30, "binop_const": 60, "pad": 80, "act": 60,
         "log": 20, "transpose": 60, "tile": 40, "gather": 60, "gather_elements": 60, "reduce": 120, "softmax": 60,
         "gemm": 60, "matmul_const": 60, "flatten": 20, "reshape4": 30, "dropout": 20, "resize": 120,
         "binop": 100, "concat": 60, "matmul": 60}

fams = [Family(op, (lambda op=op: F.single_op(op, pre=True, opts={"groups": True} if op == "conv" else None)),
               F.run_vs_ort, n) for op, n in QUICK.items()]
fams.append(Family("chain", lambda: F.chain(2, 7, opts={"conv": {"groups": True}}), F.run_vs_ort, 250))
LARGE = ("conv", "conv", "maxpool", "avgpool", "gap", "batchnorm", "gemm", "matmul_const", "pad", "softmax", "reduce",
         "resize", "transpose", "tile", "gather", "binop_const", "binop", "concat", "matmul")


def any_large(dtypes=("float32",)):
    return F.large(st.sampled_from(LARGE).flatmap(
        lambda op: F.single_op(op, pre=True, opts={"groups": True} if op == "conv" else None, dtypes=dtypes)))


fams.append(Family("large", any_large, F.run_vs_ort, 450))

CHECK = Check(
    "P01", "Generated C code computes the function of the ONNX model",
    "One ONNX model per case, built operator by operator over drawn shapes (rank 2-4), attributes, constants and "
    "input samples (one family per operator, and chains of 2-7 operators, and a family of operators over tensors of up to 20 channels, 20x20 positions and 7x7 kernels); ACETONE generates the C program, gcc "
    "compiles it, and every output line is compared with ONNX Runtime within a tolerance derived from the "
    "conditioning of that model (a disagreement only counts if onnx.reference does not side with ACETONE). "
    "Non-trivial: the reference output holds at least two distinct values.",
    fams,
    assumptions=["ONNX Runtime 1.18 CPU / onnx.reference implement the ONNX specification",
                 "gcc compiles the generated program faithfully (-O1, no fp contraction)"])
