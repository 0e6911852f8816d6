"""Hypothesis building blocks: one function per ONNX operator.

Each takes (draw, b, t) - the Hypothesis draw function, the model builder and the
name of an input tensor - appends nodes/initializers and returns the new tensor name,
or None when the operator does not apply to that tensor.
"""
import math
from contextlib import contextmanager

import numpy as np
from hypothesis import strategies as st

MAXSIZE = 600
SMALL = {"c": 4, "d": 6, "c3": 5, "d3": 7, "n": 10, "k": 3, "f": 4, "m": 6, "r": 8}
BIG = {"c": 20, "d": 20, "c3": 24, "d3": 24, "n": 90, "k": 7, "f": 20, "m": 40, "r": 24}
LIM = dict(SMALL)


@contextmanager
def big():
    """Draw larger tensors, kernels and numbers of filters within this context."""
    global MAXSIZE
    LIM.update(BIG)
    MAXSIZE = 6000
    try:
        yield
    finally:
        LIM.update(SMALL)
        MAXSIZE = 600


seeds = st.integers(0, 2**16 - 1)


class Builder:
    def __init__(self, draw, shape, dtype="float32", opset=18, dist="unit"):
        self.draw = draw
        self.dist = dist
        self.shapes = {"x": list(shape)}
        self.spec = {"input": list(shape), "dtype": dtype, "opset": opset, "nodes": [], "inits": {},
                     "labels": []}
        self.k = 0
        self.order = ["x"]
        # tensors that ACETONE aliases with their producer: not reusable under the old name
        self.dead = set()

    def shape(self, t):
        return self.shapes[t]

    def size(self, t):
        return int(np.prod(self.shapes[t]))

    def fresh(self, p="t"):
        self.k += 1
        return f"{p}{self.k}"

    def init(self, shape, dist=None, dtype=None, vals=None):
        n = self.fresh("c")
        d = {"shape": [int(s) for s in shape]}
        if vals is not None:
            d["vals"] = vals
        else:
            d["seed"] = self.draw(seeds)
            d["dist"] = dist or self.dist
        if dtype:
            d["dtype"] = dtype
        self.spec["inits"][n] = d
        return n

    def ints(self, vals):
        return self.init([len(vals)], dtype="int64", vals=[int(v) for v in vals])

    def node(self, op, ins, shape, label="", **attrs):
        o = self.fresh("t")
        self.spec["nodes"].append({"op": op, "in": list(ins), "out": o, "attrs": attrs})
        self.spec["labels"].append(f"{op}{':' + label if label else ''}")
        self.shapes[o] = [int(s) for s in shape]
        self.order.append(o)
        return o

    def finish(self, t, n=None):
        self.spec["output"] = t
        self.spec["outshape"] = self.shapes[t]
        self.spec["dseed"] = self.draw(seeds)
        self.spec["ddist"] = self.dist
        self.spec["n"] = n if n is not None else self.draw(st.integers(1, 3))
        return self.spec


def is4(b, t):
    return len(b.shape(t)) == 4


# ---------------------------------------------------------------- activations
def act(draw, b, t, kinds=("Relu", "Sigmoid", "Tanh", "LeakyRelu", "Clip", "Exp")):
    k = draw(st.sampled_from(kinds))
    if k == "LeakyRelu":
        return b.node(k, [t], b.shape(t), alpha=draw(st.sampled_from([0.01, 0.2, 0.5, 1.5])))
    if k == "Clip":
        lo = draw(st.sampled_from([-0.5, 0.0, -1.0, 0.125]))
        hi = lo + draw(st.sampled_from([0.25, 0.5, 1.0, 6.0]))
        return b.node(k, [t, b.init([1], vals=[lo]), b.init([1], vals=[hi])], b.shape(t))
    return b.node(k, [t], b.shape(t))


def log(draw, b, t):
    # keep the argument positive: Log(Sigmoid(.))
    s = b.node("Sigmoid", [t], b.shape(t))
    return b.node("Log", [s], b.shape(t))


# ---------------------------------------------------------------- convolution / pooling
def _spatial(draw, b, t, dilation=False, kmax=None, pads_ok=True, square=False, autopad=True, uniform_dil=True):
    _, c, h, w = b.shape(t)
    d = draw(st.sampled_from([1, 1, 2])) if dilation else 1
    kmax = kmax or LIM["k"]
    kh = draw(st.integers(1, kmax))
    kw = kh if square else draw(st.integers(1, kmax))
    s = draw(st.sampled_from([1, 1, 2, 3]))
    ekh, ekw = (kh - 1) * d + 1, (kw - 1) * d + 1
    # ONNX Runtime does not support auto_pad SAME_* with dilations
    modes = ["VALID", "pads"] + (["SAME_UPPER", "SAME_LOWER"] if autopad and d == 1 else []) if pads_ok else ["VALID"]
    mode = draw(st.sampled_from(modes))
    pads = None
    if mode == "pads":
        pads = [draw(st.integers(0, kh - 1)), draw(st.integers(0, kw - 1)),
                draw(st.integers(0, kh - 1)), draw(st.integers(0, kw - 1))]
        if h + pads[0] + pads[2] < ekh or w + pads[1] + pads[3] < ekw:
            return None
        oh = (h + pads[0] + pads[2] - ekh) // s + 1
        ow = (w + pads[1] + pads[3] - ekw) // s + 1
    elif mode == "VALID":
        if h < ekh or w < ekw:
            mode = "pads"
            pads = [0, 0, max(0, ekh - h), max(0, ekw - w)]
            if not pads_ok or pads[2] > kh - 1 or pads[3] > kw - 1:
                return None
            oh, ow = (h + pads[2] - ekh) // s + 1, (w + pads[3] - ekw) // s + 1
        else:
            oh, ow = (h - ekh) // s + 1, (w - ekw) // s + 1
    else:
        if ekh < s or ekw < s:      # negative total padding: ONNX and its runtimes disagree
            return None
        oh, ow = math.ceil(h / s), math.ceil(w / s)
    if oh <= 0 or ow <= 0:
        return None
    at = {"kernel_shape": [kh, kw], "strides": [s, s]}
    if d != 1:
        at["dilations"] = [d, d]
    if mode == "pads":
        at["pads"] = pads
    elif mode != "VALID" or draw(st.booleans()):
        at["auto_pad"] = mode
    if s == 1 and draw(st.booleans()):
        del at["strides"]
    label = f"{mode if mode != 'pads' else ('pads' if any(pads) else 'nopads')},s{s},d{d}"
    return at, oh, ow, label


def conv(draw, b, t, groups=False, dilation=True, maxf=None, **kw):
    if not is4(b, t):
        return None
    sp = _spatial(draw, b, t, dilation=dilation, **kw)
    if sp is None:
        return None
    at, oh, ow, label = sp
    c = b.shape(t)[1]
    g = 1
    if groups:
        g = draw(st.sampled_from([x for x in range(1, c + 1) if c % x == 0]))
    f = g * draw(st.integers(1, max(1, (maxf or LIM["f"]) // g)))
    if f * oh * ow > MAXSIZE:
        return None
    if g != 1:
        at["group"] = g
        label += ",g"
    ins = [t, b.init([f, c // g, *at["kernel_shape"]])]
    if draw(st.booleans()):
        ins.append(b.init([f]))
    return b.node("Conv", ins, [1, f, oh, ow], label, **at)


def maxpool(draw, b, t, **kw):
    if not is4(b, t):
        return None
    kw.setdefault("square", True)
    sp = _spatial(draw, b, t, **kw)
    if sp is None:
        return None
    at, oh, ow, label = sp
    return b.node("MaxPool", [t], [1, b.shape(t)[1], oh, ow], label, **at)


def avgpool(draw, b, t, **kw):
    if not is4(b, t):
        return None
    kw.setdefault("square", True)
    sp = _spatial(draw, b, t, **kw)
    if sp is None:
        return None
    at, oh, ow, label = sp
    return b.node("AveragePool", [t], [1, b.shape(t)[1], oh, ow], label, **at)


def gap(draw, b, t):
    if not is4(b, t):
        return None
    c, h, w = b.shape(t)[1:]
    if h != w:      # rejected by ACETONE
        return None
    return b.node("GlobalAveragePool", [t], [1, c, 1, 1])


def batchnorm(draw, b, t):
    if not is4(b, t):
        return None
    c = b.shape(t)[1]
    ins = [t, b.init([c]), b.init([c]), b.init([c]), b.init([c], dist="pos")]
    at = {}
    if draw(st.booleans()):
        at["epsilon"] = draw(st.sampled_from([1e-5, 1e-3, 0.125]))
    return b.node("BatchNormalization", ins, b.shape(t), **at)


# ---------------------------------------------------------------- broadcast arithmetic
def _bshape(draw, shape, full_ok=True):
    """A shape that broadcasts into `shape` (same rank, leading 1)."""
    return [s if draw(st.booleans()) else 1 for s in shape]


def binop_const(draw, b, t, ops=("Add", "Mul", "Sub", "Div"), ranks=False):
    op = draw(st.sampled_from(ops))
    shape = _bshape(draw, b.shape(t))
    cs = list(shape)
    if ranks and draw(st.booleans()):
        while len(cs) > 1 and cs[0] == 1 and draw(st.booleans()):
            cs = cs[1:]
    c = b.init(cs, dist="pos" if op == "Div" else None)
    first = draw(st.booleans())
    if op == "Div" and first:
        return None
    return b.node(op, [c, t] if first else [t, c], b.shape(t), "const" + ("1st" if first else ""))


def binop(draw, b, t, others, ops=("Add", "Mul", "Sub", "Max", "Min", "Mean"), nmax=2):
    """Element-wise operator between t and other tensors of broadcastable shape."""
    op = draw(st.sampled_from(ops))
    cands = []
    for o in others:
        so = b.shape(o)
        if len(so) != len(b.shape(t)):
            continue
        if all(x == y or x == 1 or y == 1 for x, y in zip(so, b.shape(t))):
            cands.append(o)
    if not cands:
        return None
    n = draw(st.integers(1, nmax - 1)) if op in ("Max", "Min", "Mean") else 1
    ins = [t]
    shape = list(b.shape(t))
    for _ in range(n):
        o = draw(st.sampled_from(cands))
        if all(x == y or x == 1 or y == 1 for x, y in zip(b.shape(o), shape)):
            ins.append(o)
            shape = [max(x, y) for x, y in zip(b.shape(o), shape)]
    if len(ins) < 2 or int(np.prod(shape)) > MAXSIZE:
        return None
    if draw(st.booleans()):
        ins = ins[::-1]
    bc = "bc" if any(b.shape(i) != shape for i in ins) else "same"
    return b.node(op, ins, shape, f"{len(ins)}in,{bc}" + (",dup" if len(set(ins)) < len(ins) else ""))


# ---------------------------------------------------------------- data movement
def concat(draw, b, t, others, nmax=3):
    if len(b.shape(t)) < 2:
        return None
    r = len(b.shape(t))
    ax = draw(st.integers(1, r - 1))
    cands = [o for o in others if len(b.shape(o)) == r and
             all(i == ax or x == y for i, (x, y) in enumerate(zip(b.shape(o), b.shape(t))))]
    n = draw(st.integers(1, nmax - 1))
    ins = [t] + [draw(st.sampled_from(cands)) for _ in range(n)] if cands else None
    if not ins:
        return None
    shape = list(b.shape(t))
    shape[ax] = sum(b.shape(i)[ax] for i in ins)
    if int(np.prod(shape)) > MAXSIZE:
        return None
    neg = draw(st.booleans())
    return b.node("Concat", ins, shape, f"ax{ax},r{r}" + (",dup" if len(set(ins)) < len(ins) else ""),
                  axis=ax - r if neg else ax)


def pad(draw, b, t, modes=("constant", "edge", "reflect", "wrap"), ranks=(2, 3, 4)):
    sh = b.shape(t)
    r = len(sh)
    if r not in ranks or r < 2:
        return None
    m = draw(st.sampled_from(modes))
    before, after = [0] * r, [0] * r
    for i in range(1, r):
        lim = {"constant": 3, "edge": 3, "reflect": sh[i] - 1, "wrap": sh[i]}[m]
        before[i] = draw(st.integers(0, min(3, lim)))
        after[i] = draw(st.integers(0, min(3, lim)))
    shape = [s + p + q for s, p, q in zip(sh, before, after)]
    if int(np.prod(shape)) > MAXSIZE:
        return None
    label = f"{m},r{r}"
    axes = None
    if draw(st.booleans()):      # explicit axes, in any order, possibly negative
        axes = draw(st.permutations([a for a in range(r) if before[a] or after[a] or draw(st.booleans())]))
        if axes:
            label += ",axes"
            before, after = [before[a] for a in axes], [after[a] for a in axes]
            axes = [a - r if draw(st.booleans()) else a for a in axes]
        else:
            axes = None
    ins = [t, b.ints([*before, *after])]
    at = {} if m == "constant" and draw(st.booleans()) else {"mode": m}
    v = draw(st.sampled_from([0.0, 1.5, -2.0])) if m == "constant" else 0.0
    if v or axes is not None or draw(st.booleans()):
        ins.append(b.init([], vals=[v]) if v or draw(st.booleans()) else "")
    if axes is not None:
        ins.append(b.ints(axes))
    elif ins[-1] == "":
        ins.pop()
    return b.node("Pad", ins, shape, label, **at)


def transpose(draw, b, t):
    if len(b.shape(t)) < 2:
        return None
    r = len(b.shape(t))
    perm = [0] + draw(st.permutations(list(range(1, r))))
    return b.node("Transpose", [t], [b.shape(t)[p] for p in perm], f"r{r}", perm=perm)


def tile(draw, b, t):
    if len(b.shape(t)) < 2:
        return None
    r = len(b.shape(t))
    reps = [1] + [draw(st.integers(1, 3)) for _ in range(r - 1)]
    shape = [s * q for s, q in zip(b.shape(t), reps)]
    if int(np.prod(shape)) > MAXSIZE:
        return None
    return b.node("Tile", [t, b.ints(reps)], shape, f"r{r}")


def gather(draw, b, t):
    if len(b.shape(t)) < 2:
        return None
    sh = b.shape(t)
    r = len(sh)
    ax = draw(st.integers(1, r - 1))
    n = draw(st.integers(1, 4))
    idx = [draw(st.integers(-sh[ax], sh[ax] - 1)) for _ in range(n)]
    shape = list(sh)
    shape[ax] = n
    return b.node("Gather", [t, b.ints(idx)], shape, f"ax{ax},r{r}",
                  axis=ax - r if draw(st.booleans()) else ax)


def gather_elements(draw, b, t):
    if len(b.shape(t)) < 2:
        return None
    sh = b.shape(t)
    r = len(sh)
    ax = draw(st.integers(1, r - 1))
    shape = list(sh)
    shape[ax] = draw(st.integers(1, 4))
    n = int(np.prod(shape))
    if n > 60:
        return None
    idx = [draw(st.integers(-sh[ax], sh[ax] - 1)) for _ in range(n)]
    c = b.init(shape, dtype="int64", vals=idx)
    return b.node("GatherElements", [t, c], shape, f"ax{ax},r{r}",
                  axis=ax - r if draw(st.booleans()) else ax)


def reduce(draw, b, t, ops=("ReduceSum", "ReduceMax", "ReduceMin", "ReduceMean", "ReduceProd"), keepdims=(0, 1)):
    op = draw(st.sampled_from(ops))
    sh = b.shape(t)
    r = len(sh)
    if r < 2:
        return None
    n = draw(st.integers(1, r - 1))
    axes = sorted(draw(st.permutations(list(range(1, r))))[:n])
    keep = draw(st.sampled_from(keepdims))
    shape = [(1 if i in axes else s) for i, s in enumerate(sh)] if keep else \
        [s for i, s in enumerate(sh) if i not in axes]
    a2 = [a - r if draw(st.booleans()) else a for a in axes]
    return b.node(op, [t, b.ints(a2)], shape, f"axes{''.join(map(str, axes))},r{r},k{keep}", keepdims=keep)


def softmax(draw, b, t):
    if len(b.shape(t)) < 2:
        return None
    r = len(b.shape(t))
    ax = draw(st.integers(1, r - 1))
    return b.node("Softmax", [t], b.shape(t), f"ax{ax},r{r}", axis=ax - r if draw(st.booleans()) else ax)


RESIZE_COORD = ("half_pixel", "asymmetric", "align_corners", "pytorch_half_pixel", "half_pixel_symmetric")


def _exact(scale):
    """Dividing by this float32 scale is exact (dyadic), so rounding decisions are not ambiguous."""
    m, _ = math.frexp(scale)
    return m == 0.5


def _nearest_ambiguous(n, m, scale, cm, nm):
    """Some coordinate is too close to a rounding boundary for the answer to be well defined."""
    if _exact(scale) and cm != "align_corners":
        return False
    for i in range(m):
        if cm == "align_corners":
            x = 0.0 if m == 1 else i * (n - 1) / (m - 1)
        elif cm == "asymmetric":
            x = i / scale
        else:
            x = (i + 0.5) / scale - 0.5
            if cm == "pytorch_half_pixel" and m == 1:
                x = 0.0
            if cm == "half_pixel_symmetric":
                x += n / 2 * (1 - m / (n * scale))
        if i == 0 and x == 0:
            continue
        f = x - math.floor(x)
        if nm in ("floor", "ceil"):
            if min(f, 1 - f) < 1e-4:
                return True
        elif abs(f - 0.5) < 1e-4:
            return True
    return False


def resize(draw, b, t, modes=("nearest", "linear", "cubic"), coords=RESIZE_COORD):
    if not is4(b, t):
        return None
    m = draw(st.sampled_from(modes))
    _, c, h, w = b.shape(t)
    cm = draw(st.sampled_from(coords))
    at = {}
    if m != "nearest" or draw(st.booleans()):
        at["mode"] = m
    if cm != "half_pixel" or draw(st.booleans()):
        at["coordinate_transformation_mode"] = cm
    nm = "round_prefer_floor"
    if m == "nearest" and draw(st.integers(0, 3)):
        nm = at["nearest_mode"] = draw(st.sampled_from(["round_prefer_floor", "round_prefer_ceil", "floor", "ceil"]))
    if m == "cubic" and draw(st.booleans()):
        at["cubic_coeff_a"] = draw(st.sampled_from([-0.5, -0.75]))
    kind = draw(st.sampled_from(["sizes", "scales"]))
    if kind == "sizes":
        oh, ow = draw(st.integers(1, LIM["r"])), draw(st.integers(1, LIM["r"]))
        fh, fw = oh / h, ow / w
        vals = [1, c, oh, ow]
    else:
        fh, fw = draw(st.sampled_from([1.0, 2.0, 3.0, 0.5, 1.5])), draw(st.sampled_from([1.0, 2.0, 3.0, 0.5, 1.5]))
        oh, ow = int(math.floor(h * fh)), int(math.floor(w * fw))
        vals = [1.0, 1.0, fh, fw]
    if oh < 1 or ow < 1 or c * oh * ow > MAXSIZE:
        return None
    if m == "nearest" and (_nearest_ambiguous(h, oh, fh, cm, nm) or _nearest_ambiguous(w, ow, fw, cm, nm)):
        return None
    lab = f"{m},{cm},{kind}"
    if b.spec["opset"] >= 18 and draw(st.integers(0, 3)) == 0:
        axes = draw(st.sampled_from([[2, 3], [3, 2], [1, 2, 3]]))
        at["axes"] = axes
        vals = [vals[a] for a in axes]
        lab += ",axes"
    v = b.init([len(vals)], dtype="int64" if kind == "sizes" else "float32", vals=vals)
    b.spec["inits"][v]["exact"] = True
    ins = [t, "", "", v] if kind == "sizes" else [t, "", v]
    return b.node("Resize", ins, [1, c, oh, ow], lab, **at)


# ---------------------------------------------------------------- dense
def gemm(draw, b, t, maxn=None, bias=("none", "vec", "mat")):
    sh = b.shape(t)
    if len(sh) != 2:
        return None
    n = draw(st.integers(1, maxn or LIM["m"]))
    at = {}
    tb = draw(st.integers(0, 1))
    if tb or draw(st.booleans()):
        at["transB"] = tb
    if draw(st.booleans()):
        at["alpha"] = draw(st.sampled_from([1.0, 0.5, 2.0, -1.5]))
    if draw(st.booleans()):
        at["beta"] = draw(st.sampled_from([1.0, 0.5, 2.0, -1.5]))
    k = sh[1]
    ins = [t, b.init([n, k] if tb else [k, n])]
    bk = draw(st.sampled_from(bias))
    if bk == "vec":
        ins.append(b.init([n]))
    elif bk == "mat":
        ins.append(b.init([1, n]))
    return b.node("Gemm", ins, [1, n], f"tb{tb},{bk}", **at)


def matmul_const(draw, b, t, maxn=None, bcast=True, left=True):
    """MatMul between a tensor and a constant, on either side."""
    sh = b.shape(t)
    r = len(sh)
    if r < 2:
        return None
    n = draw(st.integers(1, maxn or LIM["m"]))
    lead = list(sh[:-2])
    is_left = left and draw(st.booleans())
    if int(np.prod(lead)) * n * max(sh[-1], sh[-2]) > MAXSIZE:
        return None
    # leading dimensions of the constant: absent, ones, or the ones of the tensor
    kind = draw(st.sampled_from(["full", "none", "ones"])) if bcast else "full"
    cl = lead if kind == "full" else [] if kind == "none" else [1] * len(lead)
    if r == 2:
        cl = []
    if is_left and r > 2:
        return b.node("MatMul", [b.init([*cl, n, sh[-2]]), t], [*lead, n, sh[-1]], f"r{r},left,{kind}")
    return b.node("MatMul", [t, b.init([*cl, sh[-1], n])], [*sh[:-1], n], f"r{r},{kind}")


def matmul(draw, b, t, others):
    """MatMul between two computed tensors."""
    sh = b.shape(t)
    r = len(sh)
    if r < 3:
        return None
    cands = [o for o in others if len(b.shape(o)) == r and b.shape(o)[:-2] == sh[:-2]
             and b.shape(o)[-2] == sh[-1]]
    if r < 3:
        return None
    if not cands:
        # product with the transpose of a tensor sharing the last dimension
        cands = [o for o in others if len(b.shape(o)) == r and b.shape(o)[:-2] == sh[:-2]
                 and b.shape(o)[-1] == sh[-1]]
        if not cands:
            return None
        o = draw(st.sampled_from(cands))
        so = b.shape(o)
        perm = [*range(r - 2), r - 1, r - 2]
        o = b.node("Transpose", [o], [so[p] for p in perm], perm=perm)
    else:
        o = draw(st.sampled_from(cands))
    shape = [*sh[:-1], b.shape(o)[-1]]
    if int(np.prod(shape)) > MAXSIZE:
        return None
    return b.node("MatMul", [t, o], shape, f"r{r},dyn")


def flatten(draw, b, t):
    if not is4(b, t):
        return None
    n = b.size(t)
    op = draw(st.sampled_from(["Flatten", "Reshape"]))
    b.dead.add(t)
    if op == "Flatten":
        return b.node("Flatten", [t], [1, n], axis=1)
    return b.node("Reshape", [t, b.ints([1, n])], [1, n])


def reshape4(draw, b, t):
    n = b.size(t)
    divs = [d for d in range(1, n + 1) if n % d == 0]
    c = draw(st.sampled_from(divs))
    hw = n // c
    h = draw(st.sampled_from([d for d in range(1, hw + 1) if hw % d == 0]))
    b.dead.add(t)
    return b.node("Reshape", [t, b.ints([1, c, h, hw // h])], [1, c, h, hw // h])


def dropout(draw, b, t):
    b.dead.add(t)
    return b.node("Dropout", [t], b.shape(t))


def shapes4(draw, maxc=None, maxd=None):
    maxc, maxd = maxc or LIM["c"], maxd or LIM["d"]
    return [1, draw(st.integers(1, maxc)), draw(st.integers(1, maxd)), draw(st.integers(1, maxd))]


def shapes3(draw, maxc=None, maxd=None):
    maxc, maxd = maxc or LIM["c3"], maxd or LIM["d3"]
    return [1, draw(st.integers(1, maxc)), draw(st.integers(1, maxd))]


def shapes2(draw, maxn=None):
    return [1, draw(st.integers(1, maxn or LIM["n"]))]


# ---------------------------------------------------------------- motifs of the optimization pass
def motif_conv_bn(draw, b, t, groups=True):
    """Conv followed by BatchNormalizations and activations."""
    if not is4(b, t):
        return None
    t = conv(draw, b, t, groups=groups)
    if t is None:
        return None
    for _ in range(draw(st.sampled_from([1, 2, 2, 3, 4]))):
        t = batchnorm(draw, b, t) if draw(st.integers(0, 2)) else act(draw, b, t)
    return t


def motif_silu(draw, b, t):
    """x * sigmoid(x), in both orders."""
    s = b.node("Sigmoid", [t], b.shape(t))
    ins = [t, s] if draw(st.booleans()) else [s, t]
    return b.node("Mul", ins, b.shape(t), "silu")


def motif_near_silu(draw, b, t):
    """The same nodes, wired differently."""
    s = b.node("Sigmoid", [t], b.shape(t))
    k = draw(st.integers(0, 3))
    if k == 0:
        return b.node("Mul", [s, s], b.shape(t), "sig2")
    if k == 1:
        a = act(draw, b, t)
        return b.node("Mul", [a, s], b.shape(t), "nearsilu")
    if k == 2:
        m = b.node("Mul", [t, s], b.shape(t), "silu+")
        return b.node("Add", [m, s], b.shape(t), "silu+")
    return b.node("Add", [t, s], b.shape(t), "nearsilu")


def motif_matmul_add(draw, b, t):
    """MatMul with a constant followed by the addition of a constant (and an activation)."""
    t = matmul_const(draw, b, t)
    if t is None:
        return None
    shape = _bshape(draw, b.shape(t)) if draw(st.booleans()) else \
        [*([1] * (len(b.shape(t)) - 1)), b.shape(t)[-1]]
    if draw(st.booleans()):
        while len(shape) > 1 and shape[0] == 1:
            shape = shape[1:]
    c = b.init(shape)
    t = b.node("Add", [c, t] if draw(st.booleans()) else [t, c], b.shape(t), "bias")
    if draw(st.booleans()):
        t = act(draw, b, t)
    return t


def motif_op_act(draw, b, t):
    """Any operator followed by an activation."""
    k = draw(st.sampled_from(sorted(UNARY)))
    t = UNARY[k](draw, b, t)
    return None if t is None else act(draw, b, t)


def motif_acts(draw, b, t):
    """An operator followed by several activations: only the first one can be merged into it."""
    u = UNARY[draw(st.sampled_from(("conv", "gemm", "maxpool", "binop_const", "batchnorm", "pad")))](draw, b, t)
    t = u if u is not None else binop_const(draw, b, t)
    # mostly ones which clip: an operator merged twice, or in the wrong order, shows
    for _ in range(draw(st.integers(2, 4))):
        t = None if t is None else act(draw, b, t, ("Relu", "Clip", "Relu", "Clip", "LeakyRelu", "Tanh", "Sigmoid"))
    return t


# ---------------------------------------------------------------- graphs
def constant_node(draw, b):
    """Turn some initializers into Constant nodes (done on the finished spec)."""


UNARY = {
    "act": act, "conv": conv, "maxpool": maxpool, "avgpool": avgpool, "gap": gap, "batchnorm": batchnorm,
    "binop_const": binop_const, "pad": pad, "transpose": transpose, "tile": tile, "gather": gather,
    "gather_elements": gather_elements, "reduce": reduce, "softmax": softmax, "gemm": gemm,
    "matmul_const": matmul_const, "flatten": flatten, "reshape4": reshape4, "dropout": dropout, "resize": resize,
}
MOTIFS = {"m_conv_bn": motif_conv_bn, "m_silu": motif_silu, "m_near_silu": motif_near_silu,
          "m_matmul_add": motif_matmul_add, "m_op_act": motif_op_act,
          "m_acts": motif_acts}
MULTI = {"binop": binop, "concat": concat, "matmul": matmul}


def consumers(b):
    c = {}
    for n in b.spec["nodes"]:
        for i in n["in"]:
            c[i] = c.get(i, 0) + 1
    return c


def join(draw, b, leaves):
    """Concatenate every leaf (flattened) so that all of them contribute to the output."""
    if len(leaves) == 1:
        return leaves[0]
    flat = []
    for t in leaves:
        if len(b.shape(t)) == 2:
            flat.append(t)
        else:
            n = b.size(t)
            if len(b.shape(t)) == 4 and draw(st.booleans()):
                flat.append(b.node("Flatten", [t], [1, n], axis=1))
            else:
                flat.append(b.node("Reshape", [t, b.ints([1, n])], [1, n]))
    if draw(st.booleans()):
        flat = flat[::-1]
    tot = sum(b.size(t) for t in flat)
    return b.node("Concat", flat, [1, tot], "join", axis=1)


def graph(draw, b, nodes, unary, multi=("binop", "concat"), branch=3, opts=None):
    """Grow a graph: each step applies an operator to a live tensor, favouring recent ones.

    branch: 0 = chain; larger = more often reuse an older tensor / use a multi-input operator.
    """
    opts = opts or {}
    cur = b.order[-1]
    done = tries = 0
    while done < nodes and tries < 4 * nodes:
        tries += 1
        use_multi = branch and multi and draw(st.integers(0, 9)) < branch
        src = cur
        if branch and draw(st.integers(0, 9)) < branch:
            src = draw(st.sampled_from(b.order))
        if use_multi:
            f = MULTI[draw(st.sampled_from(multi))]
            t = f(draw, b, src, list(b.order))
        else:
            k = draw(st.sampled_from(unary))
            t = (UNARY.get(k) or MOTIFS[k])(draw, b, src, **opts.get(k, {}))
        if t is not None and b.size(t) > MAXSIZE:
            # drop it: too large
            b.spec["nodes"].pop()
            b.spec["labels"].pop()
            b.order.remove(t)
            t = None
        if t is not None:
            cur = t
            done += 1
    used = consumers(b)
    leaves = [t for t in b.order if t not in used and t != "x"]
    if not leaves:
        return None
    return join(draw, b, leaves)


def node_use(spec):
    """(number of tensors read more than once, number of joins)."""
    c = {}
    for n in spec["nodes"]:
        for i in n["in"]:
            if i in spec["inits"] or i == "":
                continue
            c[i] = c.get(i, 0) + 1
    multi = sum(1 for v in c.values() if v > 1)
    joins = sum(1 for n in spec["nodes"] if sum(1 for i in n["in"] if i and i not in spec["inits"]) > 1)
    return multi, joins
