"""P04 - the optimization pass preserves the function of the model."""
from hypothesis import strategies as st

from pbt import families as F
from pbt import judge as J
from pbt import onnxspec as S
from pbt.cgen import acetone_generator, scratch
from pbt.engine import Check, Family, Info, Violation

ALGS = [None] * 5 + ["6loops", *(f"{k}_gemm_{t}" for k in ("indirect", "std") for t in ("nn", "nt", "tn", "tt"))]
M = ("m_conv_bn", "m_silu", "m_near_silu", "m_matmul_add", "m_op_act", "m_acts")


@st.composite
def with_algorithm(draw, graphs):
    spec = draw(graphs)
    if not any(n["attrs"].get("group", 1) > 1 for n in spec["nodes"]):
        spec["alg"] = draw(st.sampled_from(ALGS))
    return spec


def run(spec):
    kw = {"versions": {"Conv2D": spec["alg"]}} if spec.get("alg") else {}
    model = S.build_model(spec)
    x = S.dataset(spec)
    ref = J.reference(spec, model, x)
    log = {}

    def check(opt):
        import onnx
        m2 = onnx.ModelProto()
        m2.CopyFrom(model)
        with scratch() as d:
            r = F.safe_run(spec, m2, x, d, f"ACETONE (optimization={opt})", want_c=opt, want_py=True, optimization=opt, **kw)
        log[opt] = r.gen.log
        return r

    r = check(True)
    J.check_rows(f"optimized C code (after {r.gen.log!r}) disagrees with the model", r.c, ref, model, x, spec)
    J.check_rows(f"optimized python inference (after {r.gen.log!r}) disagrees with the model", r.py, ref, model, x, spec)
    pats = [p for p in ("Conv2D_new", "Dense", "Silu", "->") if p in r.gen.log]
    n = r.gen.log.count("->")
    return Info([*F.labels_of(spec), f"alg:{spec.get('alg')}", *[f"pattern:{p}" for p in pats], f"rewrites{min(n, 4)}"],
                n > 0 and F.nontrivial(ref.rows), {**F.sample(spec), "log": r.gen.log})


fams = [
    Family("motifs", lambda: with_algorithm(F.chain(1, 4, unary=("m_conv_bn", *M), branch=1)), run, 1300, min_nontrivial=0.3),
    Family("activations", lambda: F.chain(1, 3, unary=("m_acts", "m_acts", "m_silu"), branch=1,
                                          dists=("unit", "int", "large")), run, 350, min_nontrivial=0.2),
    Family("mixed", lambda: F.chain(2, 7, unary=M * 3 + tuple(F.CHAIN_OPS), branch=2, opts={"conv": {"groups": True}}),
           run, 700, min_nontrivial=0.2),
]

CHECK = Check(
    "P04", "Optimization pass preserves the outputs",
    "Models made of the motifs the pass rewrites (Conv+BatchNormalization+activation, x*sigmoid(x), "
    "MatMul+Add, any operator + activation), of near misses of these motifs, of several activations in a row, and of other operators, in chains and "
    "branching graphs; generated with optimization on and every convolution algorithm. C and python outputs compared with ONNX Runtime. "
    "Non-trivial: the pass logged at least one rewrite and the reference output is not constant.",
    fams,
    assumptions=["ONNX Runtime 1.18 CPU / onnx.reference implement the ONNX specification"])
