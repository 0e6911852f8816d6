"""P03 - every convolution algorithm computes the same convolution."""
from hypothesis import assume
from hypothesis import strategies as st

from pbt import families as F
from pbt import judge as J
from pbt import onnxops as O
from pbt import onnxspec as S
from pbt.cgen import acetone_generator, scratch
from pbt.engine import Check, Family, Info, Violation

GEMM = [f"{k}_gemm_{t}" for k in ("indirect", "std") for t in ("nn", "nt", "tn", "tt")]
ALGS = ["6loops", *GEMM]


@st.composite
def one_conv(draw, alg, last=False):
    shape = [1, draw(st.integers(1, 5)), draw(st.integers(1, 8)), draw(st.integers(1, 8))]
    b = O.Builder(draw, shape, dist=draw(st.sampled_from(["unit", "unit", "int"])),
                  dtype=draw(st.sampled_from(["float32", "float32", "float32", "float64"])))
    t = "x"
    if draw(st.booleans()) and not last:
        t = O.act(draw, b, t, ("Relu", "Tanh"))
    t = O.conv(draw, b, t, groups=(alg == "6loops"), maxf=6, kmax=4)
    assume(t is not None)
    if draw(st.booleans()):
        t = O.act(draw, b, t)
    return {"spec": b.finish(t), "versions": {"Conv2D": alg}}


@st.composite
def mixed(draw):
    """Networks whose convolutions each use their own algorithm, given by type and by layer."""
    spec = draw(F.chain(3, 7, unary=("conv", "conv", "conv", "act", "maxpool", "avgpool", "batchnorm", "pad"),
                        branch=2, multi=("binop", "concat"), ranks=(4,)))
    nconv = sum(1 for n in spec["nodes"] if n["op"] == "Conv")
    assume(nconv >= 1)
    return {"spec": spec, "default": draw(st.sampled_from([None, *ALGS])),
            "per": [draw(st.sampled_from([None, *ALGS])) for _ in range(nconv)]}


def run(case):
    spec = case["spec"]
    info = F.run_vs_ort(spec, want_c=True, versions=case["versions"])
    info.labels.append("alg:" + case["versions"]["Conv2D"])
    return info


def run_mixed(case):
    spec = case["spec"]
    model = S.build_model(spec)
    gen = acetone_generator(model)
    idx = [la.idx for la in gen.layers if la.name == "Conv2D"]
    versions = {i: a for i, a in zip(idx, case["per"]) if a}
    if case["default"]:
        versions["Conv2D"] = case["default"]
    info = F.run_vs_ort(spec, want_c=True, versions=versions)
    used = {a or case["default"] or "6loops" for a in case["per"]}
    info.labels.extend("alg:" + a for a in used)
    info.labels.append(f"algs{len(used)}")
    return info


fams = [Family(a, (lambda a=a: one_conv(a)), run, 110) for a in ALGS]
fams.append(Family("mixed", mixed, run_mixed, 350))

CHECK = Check(
    "P03", "Every convolution algorithm computes the same convolution",
    "Models with one convolution (drawn channels, filters, kernel, stride, dilation, padding, bias, activation, "
    "precision) generated with each of the nine channels-first algorithms, and networks of 3-7 layers whose "
    "convolutions each use a drawn algorithm, selected by layer and by type; outputs compared with ONNX Runtime. "
    "Non-trivial: the reference output holds at least two distinct values.",
    fams,
    assumptions=["ONNX Runtime 1.18 CPU / onnx.reference implement the ONNX specification",
                 "gcc compiles the generated program faithfully (-O1, no fp contraction)"])
