"""P19 - code generated in channels-last layout computes the same function."""
from hypothesis import assume
from hypothesis import strategies as st

from pbt import families as F
from pbt import judge as J
from pbt import onnxops as O
from pbt import onnxspec as S
from pbt.engine import Check, Family, Info

V = {"Conv2D": "direct_block", "MaxPooling2D": "channels_last", "AveragePooling2D": "channels_last"}
KW = dict(gen_data_format="channels_last", versions=V)


def lconv(draw, b, t, kind=None):
    """A convolution direct_block supports: same padding on both axes' origins, no dilation, dense or depthwise."""
    _, c, h, w = b.shape(t)
    kind = kind or draw(st.sampled_from(["any", "any", "1x1", "3x3", "tiles", "dw"]))
    kh, kw = {"1x1": (1, 1), "3x3": (3, 3), "tiles": (3, 3)}.get(kind, (draw(st.integers(1, 4)), draw(st.integers(1, 4))))
    s = 1 if kind == "3x3" and draw(st.booleans()) else draw(st.sampled_from([1, 1, 2, 3]))
    p = draw(st.integers(0, min(kh, kw) - 1))
    pb, pr = draw(st.integers(0, kh - 1)), draw(st.integers(0, kw - 1))
    if draw(st.booleans()):
        pb = pr = p
    if kind == "tiles":     # 3x3, stride 1 and an even output: computed by tiles
        s = 1
        pb = draw(st.sampled_from([q for q in range(3) if (h + p + q) % 2 == 0]))
        pr = draw(st.sampled_from([q for q in range(3) if (w + p + q) % 2 == 0]))
    oh, ow = (h + p + pb - kh) // s + 1, (w + p + pr - kw) // s + 1
    if h + p + pb < kh or w + p + pr < kw:
        return None
    at = {"kernel_shape": [kh, kw], "strides": [s, s], "pads": [p, p, pb, pr]}
    if kind == "dw":
        f, at["group"], ci = c, c, 1
    else:
        f, ci = draw(st.integers(1, 6)), c
        # several blocks of filters
        if draw(st.integers(0, 5)) == 0:
            f = draw(st.sampled_from([64, 128] if kw > 1 else [64, 128, 512, 1024]) | st.integers(65, 200 if kw > 1 else 1030))
    if f * oh * ow > 2 * O.MAXSIZE or f * ci * kh * kw > 6000:
        return None
    ins = [t, b.init([f, ci, kh, kw])]
    if draw(st.booleans()):
        ins.append(b.init([f]))
    return b.node("Conv", ins, [1, f, oh, ow], f"{kind},k{kh}{kw},s{s},pad{p}", **at)


def lpool(draw, b, t):
    f = draw(st.sampled_from([O.maxpool, O.avgpool]))
    return f(draw, b, t)


@st.composite
def nets(draw, lo, hi, kinds=("conv", "conv", "conv", "pool", "act", "dropout")):
    b = O.Builder(draw, [1, draw(st.integers(1, 5)), draw(st.integers(1, 9)), draw(st.integers(1, 9))],
                  dist=draw(st.sampled_from(["unit", "unit", "int"])),
                  dtype=draw(st.sampled_from(["float32", "float32", "float64"])))
    t = "x"
    n = draw(st.integers(lo, hi))
    done = 0
    for _ in range(3 * n):
        k = draw(st.sampled_from(kinds))
        u = (lconv(draw, b, t) if k == "conv" else lpool(draw, b, t) if k == "pool" else
             O.act(draw, b, t) if k == "act" else O.dropout(draw, b, t))
        if u is not None:
            t = u
            done += 1
        if done == n:
            break
    assume(done == n and any(x["op"] in ("Conv", "MaxPool", "AveragePool") for x in b.spec["nodes"]))
    return b.finish(t)


def run(spec):
    info = F.run_vs_ort(spec, want_c=True, want_py=True, **KW)
    info.nontrivial = info.nontrivial and max(spec["input"][1:]) > 1
    return info


fams = [
    Family("conv", lambda: nets(1, 2, ("conv", "act")), run, 350),
    Family("pool", lambda: nets(1, 2, ("pool", "act")), run, 200),
    Family("net", lambda: nets(2, 6), run, 350),
]

CHECK = Check(
    "P19", "Channels-last code computes the function of the model",
    "Convolutional networks of 1-6 layers (dense and depthwise convolutions with drawn kernels, strides and paddings, "
    "max and average pooling, activations, dropout) generated with gen_data_format=channels_last and the channels-last "
    "implementations of convolution and pooling; C and python outputs (in the layout of the model) compared with ONNX "
    "Runtime. Non-trivial: the input is not a single value and the reference output is not constant.",
    fams,
    assumptions=["ONNX Runtime 1.18 CPU / onnx.reference implement the ONNX specification",
                 "gcc compiles the generated program faithfully (-O1, no fp contraction)"])
