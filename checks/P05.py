"""P05 - non-sequential graphs: every reader of a tensor sees the value its producer computed."""
from hypothesis import assume
from hypothesis import strategies as st

from pbt import families as F
from pbt import judge as J
from pbt import onnxops as O
from pbt import onnxspec as S
from pbt.cgen import scratch
from pbt.disguise import STYLES, disguise, share_initializers
from pbt.engine import Check, Family, Info

# cheap operators over small tensors: the graph is what matters
OPS = ("act", "act", "conv", "maxpool", "binop_const", "binop_const", "pad", "transpose", "gather", "reduce", "softmax",
       "gemm", "matmul_const", "tile", "dropout", "batchnorm", "resize", "reshape4", "flatten")


@st.composite
def graphs(draw, ops=OPS, lo=4, hi=14, branch=5, ranks=(2, 3, 4, 4)):
    spec = draw(F.deep(lo, hi, n=2)) if hi > 100 else draw(F.chain(lo, hi, unary=ops, branch=branch, multi=("binop", "binop", "concat", "matmul"), ranks=ranks))
    assume(O.node_use(spec)[0] >= 1)
    return {"spec": spec, "share": draw(st.sampled_from([None, None, 1, 2])),
            "seed": draw(st.integers(0, 10**6)), "style": draw(st.sampled_from(STYLES)),
            "constants": draw(st.booleans()), "nodenames": draw(st.booleans()),
            "inputs": draw(st.integers(0, 5)) == 0}


def run(case):
    spec = case["spec"]
    shared = 0
    if case["share"]:
        spec, shared = share_initializers(spec, case["share"])
    model = S.build_model(spec)
    x = S.dataset(spec)
    ref = J.reference(spec, model, x)
    m2 = disguise(model, case["seed"], case["style"], constants=case["constants"], nodenames=case["nodenames"],
                  inputs=case["inputs"])
    with scratch() as d:
        r = F.safe_run(spec, m2, x, d, "ACETONE", want_c=True, want_py=True)
    J.check_rows("generated C code disagrees with the model", r.c, ref, model, x, spec)
    J.check_rows("python inference disagrees with the model", r.py, ref, model, x, spec)
    multi, joins = O.node_use(spec)
    dup = any(len(n["in"]) != len(set(n["in"])) for n in spec["nodes"])
    return Info([*F.labels_of(spec), f"multi{min(multi, 5)}", f"joins{min(joins, 5)}", f"shared{min(shared, 3)}",
                 case["style"], *(["dupinput"] if dup else []), *(["constnodes"] if case["constants"] else []),
                 *(["initinputs"] if case["inputs"] else []),
                 f"buffers{r.gen.maxpath}", f"cst{min(5, len(set(r.gen.dict_cst.values())))}"],
                multi >= 1 and joins >= 1 and F.nontrivial(ref.rows),
                {**F.sample(spec), "buffers": r.gen.maxpath, "multi_readers": multi})


ACT = ("act", "binop_const", "act", "transpose", "reshape4")
fams = [
    Family("graphs", lambda: graphs(), run, 450),
    Family("wide", lambda: graphs(ops=ACT, lo=8, hi=24, branch=7, ranks=(2, 4)), run, 350),
    Family("deep", lambda: graphs(lo=100, hi=125), run, 24),
    Family("long", lambda: graphs(lo=1000, hi=1300), run, 4),
]

CHECK = Check(
    "P05", "Branching graphs: every reader gets the value of its producer",
    "Directed acyclic graphs of 4-24 operators (some of 100-125 cheap ones, or of more than a thousand) in which tensors are read by several operators, several times by the "
    "same operator, or long after they were computed; constants shared between operators or given as nodes; nodes "
    "written in any topological order and tensors named in several styles. C and python outputs compared with ONNX "
    "Runtime. Non-trivial: some tensor has several readers, some operator joins several tensors, and the reference "
    "output is not constant.",
    fams,
    assumptions=["ONNX Runtime 1.18 CPU / onnx.reference implement the ONNX specification",
                 "gcc compiles the generated program faithfully (-O1, no fp contraction)"])
