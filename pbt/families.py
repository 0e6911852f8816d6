"""Strategies and oracles shared by several checks."""
import random

from hypothesis import assume
from hypothesis import strategies as st

from . import judge as J
from . import onnxops as O
from . import onnxspec as S
from .cgen import BuildError, GenError, RunError, run_acetone, scratch
from .engine import Info, Violation

# operators applied to a single computed tensor; ranks they are tried on
OPS = {
    "act": (2, 3, 4), "log": (2, 4), "conv": (4,), "maxpool": (4,), "avgpool": (4,), "gap": (4,),
    "batchnorm": (4,), "binop_const": (2, 3, 4), "pad": (2, 3, 4), "transpose": (2, 3, 4), "tile": (2, 3, 4),
    "gather": (2, 3, 4), "gather_elements": (2, 3, 4), "reduce": (2, 3, 4), "softmax": (2, 3, 4),
    "gemm": (2,), "matmul_const": (2, 3, 4), "flatten": (4,), "reshape4": (2, 3, 4), "dropout": (2, 4),
    "resize": (4,), "lstm": (3,),
}
OPS2 = {"binop": (2, 3, 4), "concat": (2, 3, 4), "matmul": (3, 4)}


def in_shape(draw, rank):
    return O.shapes4(draw) if rank == 4 else O.shapes3(draw) if rank == 3 else O.shapes2(draw)


@st.composite
def single_op(draw, op, opts=None, dtypes=("float32",), n=None, pre=False):
    """A one-operator model (possibly followed / preceded by an activation)."""
    rank = draw(st.sampled_from((OPS | OPS2)[op]))
    # the functions which saturate also get large samples
    dist = draw(st.sampled_from(["unit", "unit", "int", *(["large"] * 2 if op in ("act", "softmax", "log") else [])]))
    b = O.Builder(draw, in_shape(draw, rank), dist=dist, dtype=draw(st.sampled_from(dtypes)))
    t = "x"
    opts = opts or {}
    if op in OPS2:
        a = O.act(draw, b, "x", ("Relu", "Tanh", "LeakyRelu"))
        others = ["x", a, O.act(draw, b, "x", ("Sigmoid",))]
        if rank == 4 and op == "binop":
            others.append(O.reduce(draw, b, "x", ops=("ReduceSum", "ReduceMax"), keepdims=(1,)))
        t = O.MULTI[op](draw, b, draw(st.sampled_from(others)), others, **opts)
        assume(t is not None)
        used = O.consumers(b)
        t = O.join(draw, b, [t] + [o for o in b.order if o not in used and o not in ("x", t)])
    else:
        if pre and draw(st.booleans()):
            t = O.act(draw, b, t, ("Relu", "Tanh", "LeakyRelu"))
        f = getattr(O, op)
        t = f(draw, b, t, **opts)
        assume(t is not None)
        if pre and draw(st.booleans()):
            t = O.act(draw, b, t, ("Relu", "Tanh", "LeakyRelu"))
    return b.finish(t, n)


@st.composite
def large(draw, graphs):
    """The same models over larger tensors, kernels and numbers of filters."""
    with O.big():
        return draw(graphs)


CHAIN_OPS = ["act", "conv", "conv", "maxpool", "avgpool", "gap", "batchnorm", "binop_const", "pad", "transpose",
             "tile", "gather", "gather_elements", "reduce", "softmax", "gemm", "gemm", "matmul_const", "flatten",
             "reshape4", "dropout", "resize"]


@st.composite
def chain(draw, lo=2, hi=7, unary=tuple(CHAIN_OPS), branch=0, multi=("binop", "concat"), opts=None, n=None,
          ranks=(2, 3, 4, 4), dtypes=("float32",), dists=("unit", "unit", "int")):
    rank = draw(st.sampled_from(ranks))
    dist = draw(st.sampled_from(dists))
    b = O.Builder(draw, in_shape(draw, rank), dist=dist, dtype=draw(st.sampled_from(dtypes)))
    t = O.graph(draw, b, draw(st.integers(lo, hi)), unary, multi=multi, branch=branch, opts=opts)
    assume(t is not None)
    return b.finish(t, n)


@st.composite
def deep(draw, lo=101, hi=125, dtypes=("float32",), n=1):
    """More than a hundred cheap operators, with a few readers of distant tensors.

    Beyond a thousand, the operators are ones which do not make all the values alike."""
    rank = draw(st.sampled_from((2, 3, 4)))
    shape = [1, *(draw(st.integers(1, 3)) for _ in range(rank - 1))]
    b = O.Builder(draw, shape, dtype=draw(st.sampled_from(dtypes)))
    t = "x"
    rng = random.Random(draw(st.integers(0, 2**16)))    # one draw: such cases do not shrink, but stay cheap
    for _ in range(draw(st.integers(lo, hi))):
        k = rng.randrange(8)
        if k == 0 and len(b.order) > 3:
            o = b.order[rng.randrange(len(b.order))]
            t = b.node(rng.choice(("Add", "Sub", "Max")), [t, o], shape)
            if lo >= 1000:
                t = b.node("Clip", [t, b.init([1], vals=[-2.0]), b.init([1], vals=[2.0])], shape)
        elif k == 1:
            t = b.node("LeakyRelu", [t], shape, alpha=0.5)
        elif k == 2:
            t = b.node("Sub", [t, b.init([1], vals=[rng.randrange(-3, 4) / 4])], shape)
        elif lo >= 1000:
            t = b.node("Mul", [t, b.init([1], vals=[rng.choice((-1.0, 1.0))])], shape)
        elif k == 3:
            t = b.node("Relu", [t], shape)
        else:
            t = b.node("Tanh" if k < 7 else "Sigmoid", [t], shape)
    used = O.consumers(b)
    t = O.join(draw, b, [o for o in b.order if o not in used and o != "x"])
    return b.finish(t, n)


def sample(spec):
    return {"model": J.describe(spec), "samples": spec["n"], "values": spec["ddist"]}


def labels_of(spec):
    return [*spec["labels"], f"rank{len(spec['input'])}", spec["ddist"], spec["dtype"]]


def safe_run(spec, model, x, d, what, **kw):
    """run_acetone, turning any failure on a supported model into a violation."""
    try:
        return run_acetone(model, x, d, **kw)
    except (GenError, BuildError, RunError) as e:
        raise Violation(f"{what}: {type(e).__name__}: {e}\nmodel: {J.describe(spec)}") from e


def nontrivial(rows):
    """At least two output values differ over the case (not a constant answer)."""
    return len({v for r in rows for v in list(r)}) > 1


def run_vs_ort(spec, *, want_c=True, want_py=False, **kw):
    model = S.build_model(spec)
    x = S.dataset(spec)
    ref = J.reference(spec, model, x)
    import onnx
    m2 = onnx.ModelProto()
    m2.CopyFrom(model)
    with scratch() as d:
        r = safe_run(spec, m2, x, d, "ACETONE", want_c=want_c, want_py=want_py, **kw)
    cnt = {}
    if want_c:
        if J.check_rows("generated C code disagrees with the ONNX model", r.c, ref, model, x, spec):
            cnt["oracle_disagree"] = 1
    if want_py:
        if J.check_rows("python reference inference disagrees with the ONNX model", r.py, ref, model, x, spec):
            cnt["oracle_disagree"] = 1
    return Info(labels_of(spec), nontrivial(ref.rows), sample(spec), cnt)
