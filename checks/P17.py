"""P17 - an ONNX model is refused, or computed as ONNX defines it."""
import os
from fractions import Fraction  # noqa: F401

import numpy as np
import onnx
from hypothesis import strategies as st
from onnx import helper, numpy_helper

from pbt import judge as J
from pbt import onnxspec as S
from pbt.cgen import BuildError, GenError, RunError, parse_text, run_acetone, scratch
from pbt.engine import Check, Family, Info, Reject, Violation

OPSETS = (7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21)


class B:
    """A model being drawn: nodes over the current tensor, of known shape as long as it matters."""

    def __init__(self, draw, shape, opset):
        self.draw, self.shape, self.opset = draw, list(shape), opset
        self.nodes, self.inits, self.label = [], {}, ""
        self.n = 0

    def new(self, p="t"):
        self.n += 1
        return f"{p}{self.n}"

    def const(self, shape, dist="unit", node=None):
        """A constant: initializer, Constant node or, rarely, computed from constants."""
        k = self.new("c")
        self.inits[k] = {"shape": list(shape), "seed": self.draw(st.integers(0, 999)), "dist": dist}
        how = self.draw(st.integers(0, 11)) if node is None else node
        if how == 0:
            self.inits[k]["node"] = True
        elif how == 1:
            t = self.new()
            self.nodes.append({"op": "Abs" if dist == "pos" else "Tanh", "in": [k], "out": [t]})
            return t
        return k

    def ints(self, vals, node=None):
        k = self.new("c")
        self.inits[k] = {"shape": [len(vals)], "vals": list(vals), "dtype": "int64"}
        if (self.draw(st.integers(0, 5)) if node is None else node) == 0:
            self.inits[k]["node"] = True
        return k

    def add(self, op, ins, attrs=None, nout=1, domain=""):
        outs = [self.new() for _ in range(nout)]
        self.nodes.append({"op": op, "in": list(ins), "out": outs, "attrs": attrs or {}, "domain": domain})
        return outs[0]

    def pick(self, *a):
        return self.draw(st.sampled_from(a))

    def maybe(self, n=1):
        return self.draw(st.integers(0, n)) == 0

    def axis(self, extra=0):
        r = len(self.shape)
        return self.draw(st.integers(-r - extra, r - 1 + extra)) if r + extra else 0


def unary(b, t):
    op = b.pick("Abs", "Neg", "Elu", "Selu", "HardSigmoid", "Softplus", "Softsign", "Ceil", "Floor", "Sign", "Erf", "Identity",
                "Celu", "ThresholdedRelu", "HardSwish", "Mish", "LogSoftmax", "Hardmax", "Sin", "Relu", "Tanh", "Sigmoid",
                "Exp", "LeakyRelu", "LeakyRelu", "LeakyRelu", "PRelu", "Round", "Atan")
    at = {}
    if op in ("LeakyRelu", "Elu", "Celu", "ThresholdedRelu", "HardSigmoid") and b.maybe():
        at["alpha"] = b.pick(0.0, 0.5, 1.0, 2.0, -0.25) or 0.125 if op == "Celu" else b.pick(0.0, 0.5, 1.0, 2.0, -0.25)
    ins = [t, b.const([1])] if op == "PRelu" else [t]
    return b.add(op, ins, at)


def clip(b, t):
    lo, hi = b.pick(-0.5, -0.25, 0.0, None), b.pick(0.25, 0.5, 0.75, None)
    if b.opset < 11:
        return b.add("Clip", [t], {k: v for k, v in (("min", lo), ("max", hi)) if v is not None})
    ins = [t]
    for v in (lo, hi):
        if v is None:
            ins.append("")
            continue
        k = b.new("c")
        b.inits[k] = {"shape": b.pick([], [1]) if b.maybe(6) else [], "vals": [v], **({"node": True} if b.maybe(4) else {})}
        if b.maybe(8):
            k = b.add("Tanh", [k])
        ins.append(k)
    while ins[-1] == "":
        ins.pop()
    return b.add("Clip", ins)


def softmax(b, t):
    at = {} if b.maybe(2) else {"axis": b.axis()}
    return b.add(b.pick("Softmax", "Softmax", "Softmax", "LogSoftmax"), [t], at)


def gather(b, t):
    ax = b.axis()
    given = not b.maybe(2)
    n = b.shape[ax if given else 0]
    ish = b.pick([], [1], [2], [2, 2], [1, 3], [3])
    k = b.new("c")
    m = int(np.prod(ish))
    b.inits[k] = {"shape": ish, "vals": [b.draw(st.integers(-n if b.opset >= 11 else 0, n - 1)) for _ in range(m)], "dtype": "int64"}
    return b.add("Gather", [t, k], {"axis": ax} if given else {})


def gather_elements(b, t):
    ax = b.axis()
    given = not b.maybe(2)
    a = (ax if given else 0) % len(b.shape)
    n = b.shape[a]
    ish = [b.draw(st.integers(1, d)) if i != a else b.draw(st.integers(1, 4)) for i, d in enumerate(b.shape)]
    k = b.new("c")
    b.inits[k] = {"shape": ish, "vals": [b.draw(st.integers(-n, n - 1)) for _ in range(int(np.prod(ish)))], "dtype": "int64"}
    return b.add("GatherElements", [t, k], {"axis": ax} if given else {})


def concat(b, t):
    ax = b.axis()
    others = []
    for _ in range(b.draw(st.integers(0, 2))):
        if b.maybe():
            others.append(t)
        else:
            sh = list(b.shape)
            sh[ax] = b.draw(st.integers(1, 3))
            others.append(b.const(sh))
    ins = b.draw(st.permutations([t, *others]))
    return b.add("Concat", ins, {"axis": ax})


def reduce(b, t):
    op = b.pick("ReduceSum", "ReduceMax", "ReduceMin", "ReduceMean", "ReduceProd", "ReduceL1", "ReduceL2", "ReduceSumSquare")
    r = len(b.shape)
    axes = b.draw(st.lists(st.integers(-r, r - 1), max_size=r, unique_by=lambda a: a % r)) if not b.maybe(3) else None
    as_input = b.opset >= (13 if op == "ReduceSum" else 18)
    at = {}
    if b.maybe():
        at["keepdims"] = b.pick(0, 1)
    ins = [t]
    if as_input:
        if b.maybe(2):
            at["noop_with_empty_axes"] = b.pick(0, 1)
        if axes is not None:
            ins.append(b.ints(axes))
    elif axes:
        at["axes"] = axes if b.opset >= 11 else [a % r for a in axes]
    return b.add(op, ins, at)


def pad(b, t):
    r = len(b.shape)
    mode = b.pick("constant", "constant", "edge", "reflect", "wrap")
    low = -1 if b.maybe(3) else 0
    pads = [b.draw(st.integers(low, 2)) for _ in range(2 * r)]
    if b.maybe():
        pads = [p if i % r >= r - 2 else 0 for i, p in enumerate(pads)]
    if mode in ("reflect", "wrap"):     # the runtimes disagree on larger pads
        pads = [min(p, b.shape[i % r] - (mode == "reflect")) for i, p in enumerate(pads)]
    at = {"mode": mode}
    if b.opset < 11:
        at["pads"] = pads
        if b.maybe():
            at["value"] = b.pick(0.5, -1.0)
        return b.add("Pad", [t], at)
    axes = None
    if b.opset >= 18 and mode in ("constant", "edge") and b.maybe(2):
        axes = b.draw(st.lists(st.integers(-r, r - 1), min_size=1, max_size=r, unique_by=lambda a: a % r))
        pads = [b.draw(st.integers(low, 2)) for _ in range(2 * len(axes))]
    ins = [t, b.ints(pads)]
    if b.maybe() or axes:
        k = ""
        if b.maybe() or not axes:
            k = b.new("c")
            b.inits[k] = {"shape": b.pick([], [1]) if b.maybe(5) else [], "vals": [b.pick(0.5, -1.0, 2.0)]}
        ins.append(k)
    if axes:
        ins.append(b.ints(axes))
    return b.add("Pad", ins, at)


def transpose(b, t):
    return b.add("Transpose", [t], {} if b.maybe(3) else {"perm": list(b.draw(st.permutations(range(len(b.shape)))))})


def tile(b, t):
    return b.add("Tile", [t, b.ints([b.draw(st.integers(1, 3)) if b.maybe() else 1 for _ in b.shape])])


def matmul(b, t):
    s = b.shape
    how = b.pick("right", "left", "batched", "vector", "self", "both")
    if how == "right":
        return b.add("MatMul", [t, b.const([s[-1], b.draw(st.integers(1, 4))])])
    if how == "vector":
        return b.add("MatMul", [t, b.const([s[-1]])])
    if how == "batched":
        lead = [d if b.maybe() else 1 for d in s[:-2]]
        if b.maybe(2):
            lead = [b.draw(st.integers(1, 2)), *lead]
        return b.add("MatMul", [t, b.const([*lead, s[-1], b.draw(st.integers(1, 4))])])
    if len(s) < 2:
        return b.add("MatMul", [t, t])
    if how == "left":
        m = b.draw(st.integers(1, 3))
        return b.add("MatMul", [b.const(b.pick([m, s[-2]], [1, m, s[-2]], [s[-2]])), t])
    p = list(range(len(s)))
    p[-1], p[-2] = p[-2], p[-1]
    u = b.add("Transpose", [t], {"perm": p})
    return b.add("MatMul", [t, u] if how == "self" else [u, t])


def gemm(b, t):
    if len(b.shape) != 2:
        if len(b.shape) == 0:
            return unary(b, t)
        t = b.add("Flatten", [t], {"axis": b.draw(st.integers(0, len(b.shape))) if b.maybe() else 1})
        ax = b.nodes[-1]["attrs"]["axis"]
        s = [int(np.prod(b.shape[:ax])), int(np.prod(b.shape[ax:]))]
    else:
        s = b.shape
    ta, tb = b.pick(0, 0, 1), b.pick(0, 1)
    m, k = (s[1], s[0]) if ta else s
    n = b.draw(st.integers(1, 4))
    c = b.pick(None, [n], [1, n], [], [1], [m, 1], [m, n], [1, 1])
    at = {"transA": ta, "transB": tb}
    if b.maybe():
        at["alpha"] = b.pick(0.5, 2.0, -1.0)
    if b.maybe():
        at["beta"] = b.pick(0.5, 2.0, 0.0)
    w = b.const([n, k] if tb else [k, n])
    ins = [t, w]
    if b.maybe(5):    # the input on the right
        ta2, tb2 = b.pick(0, 1), b.pick(0, 1)
        k2, n2 = (s[1], s[0]) if tb2 else s
        m2 = b.draw(st.integers(1, 3))
        return b.add("Gemm", [b.const([k2, m2] if ta2 else [m2, k2]), t], {"transA": ta2, "transB": tb2} if b.opset >= 11 else
                     {"transA": ta2, "transB": tb2}) if b.opset >= 11 else b.add("Gemm", [t, w, b.const([n])], at)
    if c is not None or b.opset < 11:
        ins.append(b.const(c if c is not None else [n]))
    return b.add("Gemm", ins, at)


def spatial(b, t, lo=3, hi=5):
    """Reshape the tensor to [1, C, ...] when its rank does not fit."""
    if lo <= len(b.shape) <= hi:
        return t
    n = int(np.prod(b.shape))
    c = next((d for d in (3, 2) if n % d == 0), 1)
    m = n // c
    h = next((d for d in (3, 2, 4, 5) if m % d == 0), 1)
    b.shape = [1, c, h, m // h]
    return b.add("Reshape", [t, b.ints(b.shape)])


def window(b, k):
    r = len(b.shape) - 2
    at = {}
    if b.maybe():
        at["strides"] = [b.pick(1, 2, 3)] * r if b.maybe() else [b.pick(1, 2) for _ in range(r)]
    how = b.pick("none", "pads", "pads", "auto")
    if how == "pads":
        half = [b.draw(st.integers(0, max(0, d - 1))) for d in k]
        at["pads"] = half + half if b.maybe() else [b.draw(st.integers(0, max(0, d - 1))) for d in k + k]
    if how == "auto":
        at["auto_pad"] = b.pick("SAME_UPPER", "SAME_LOWER", "VALID", "NOTSET")
    return at


def conv(b, t):
    t = spatial(b, t)
    r = len(b.shape) - 2
    k = [b.draw(st.integers(1, 3)) for _ in range(r)] if b.maybe() else [b.draw(st.integers(1, 3))] * r
    c = b.shape[1]
    g = b.pick(1, 1, 1, c)
    f = b.draw(st.integers(1, 3)) * (g if g > 1 else 1)
    at = window(b, k)
    if b.maybe(2):
        at["dilations"] = [b.pick(1, 2)] * r if b.maybe() else [b.pick(1, 2) for _ in range(r)]
        if "auto_pad" in at:
            del at["auto_pad"]
    if g > 1 or b.maybe():
        at["group"] = g
    if b.maybe():
        at["kernel_shape"] = k
    op = b.pick(*["Conv"] * 8, "ConvTranspose")
    if op == "ConvTranspose":
        return b.add(op, [t, b.const([c, f, *k])], {k2: v for k2, v in at.items() if k2 != "group"})
    ins = [t, b.const([f, c // g, *k])]
    if b.maybe():
        ins.append(b.const([f]))
    return b.add("Conv", ins, at)


def pool(b, t):
    t = spatial(b, t)
    r = len(b.shape) - 2
    op = b.pick("MaxPool", "AveragePool", "AveragePool", "GlobalAveragePool", "GlobalMaxPool", "LpPool")
    if op.startswith("Global"):
        return b.add(op, [t])
    k = [b.draw(st.integers(1, 3)) for _ in range(r)] if b.maybe() else [b.draw(st.integers(1, 3))] * r
    at = {**window(b, k), "kernel_shape": k}
    if b.maybe(3) and b.opset >= 10:
        at["ceil_mode"] = 1
    if op == "AveragePool" and b.maybe(2):
        at["count_include_pad"] = 1
    if op == "MaxPool" and b.maybe(3) and b.opset >= 8:
        at["storage_order"] = 1
    if b.maybe(3) and b.opset >= (10 if op == "MaxPool" else 19) and op != "LpPool" and "auto_pad" not in at:
        at["dilations"] = [b.pick(1, 2) for _ in range(r)]
    return b.add(op, [t], at, nout=2 if op == "MaxPool" and b.opset >= 8 and b.maybe(3) else 1)


def batchnorm(b, t):
    if len(b.shape) < 2:
        t = spatial(b, t)
    c = b.shape[1]
    at = {}
    if b.maybe():
        at["epsilon"] = b.pick(1e-5, 1e-3, 0.1)
    if b.maybe():
        at["momentum"] = 0.5
    nout = 1
    if b.opset >= 14 and b.maybe(4):
        at["training_mode"] = 1
        nout = 3
    return b.add("BatchNormalization", [t, b.const([c]), b.const([c]), b.const([c]), b.const([c], "pos")], at, nout)


def norm(b, t):
    op = b.pick("LRN", "LRN", "InstanceNormalization", "LpNormalization")
    if op == "LpNormalization":
        return b.add(op, [t], {"axis": b.axis(), "p": b.pick(1, 2)})
    t = spatial(b, t, 4, 4)
    if op == "LRN":
        return b.add("LRN", [t], {"size": b.pick(1, 3, 5), "alpha": b.pick(0.1, 1.0, 0.0), "beta": 0.75, "bias": b.pick(1.0, 2.0)})
    return b.add(op, [t, b.const([b.shape[1]]), b.const([b.shape[1]])])


def dropout(b, t):
    nout = b.pick(1, 2)
    if b.opset < 12:
        return b.add("Dropout", [t], {"ratio": 0.5} if b.maybe() else {}, nout)
    ins = [t]
    k = b.new("c")
    if b.maybe(2):      # training, but nothing is dropped
        b.inits[k] = {"shape": [], "vals": [0.0]}
        b.inits[k + "t"] = {"shape": [], "vals": [1], "dtype": "bool"}
        ins += [k, k + "t"]
    elif b.maybe():
        b.inits[k] = {"shape": [], "vals": [0.5]}
        ins += [k]
    return b.add("Dropout", ins, {}, nout)


def reshape(b, t):
    s = b.shape
    n = int(np.prod(s))
    how = b.pick("reshape", "flatten", "unsqueeze", "squeeze", "shape", "shapeval", "size")
    if how == "flatten":
        return b.add("Flatten", [t], {"axis": b.draw(st.integers(-len(s) if b.opset >= 11 else 0, len(s)))} if b.maybe() else {})
    if how == "unsqueeze":
        ax = b.draw(st.lists(st.integers(0, len(s)), min_size=1, max_size=2, unique=True))
        return b.add("Unsqueeze", [t, b.ints(ax)]) if b.opset >= 13 else b.add("Unsqueeze", [t], {"axes": ax})
    if how == "squeeze":
        ax = [i for i, d in enumerate(s) if d == 1]
        return b.add("Squeeze", [t, b.ints(ax)]) if b.opset >= 13 else b.add("Squeeze", [t], {"axes": ax} if ax else {})
    if how == "reshape":
        d = next((d for d in (b.pick(2, 3, 4), 2, 3) if n % d == 0), 1)
        to = b.pick([n], [1, n], [d, n // d], [-1], [1, d, -1], [0, -1], [1, 1, d, n // d], [d, -1, 1], [1, 1, 1, d, n // d])
        return b.add("Reshape", [t, b.ints(to)])
    if how == "size":
        u = b.add("Size", [t])
        u = b.add("Cast", [u], {"to": 1})
        return b.add("Div", [t, u])
    u = b.add("Shape", [t], {k: v for k, v in (("start", b.pick(0, 1, -1)), ("end", b.pick(1, 2, -1)))
                             if b.opset >= 15 and b.maybe(2)})
    if how == "shape":      # Reshape to a shape computed by the model
        v = t
        if b.maybe():
            v = b.add("Flatten", [t])
        if b.maybe():
            u = b.add("Gather", [u, b.ints(list(range(len(s))))], {"axis": 0})
        if b.maybe(2):
            u = b.add("Mul", [u, b.ints([1])])
        return b.add("Reshape", [v, u])
    u = b.add("Cast", [u], {"to": 1})
    if b.maybe():
        return u
    return b.add("Mul", [t, b.add("ReduceMax", [u], {"keepdims": 0})])


def constant(b, t):
    how = b.pick("value_float", "value_floats", "value", "second")
    at = {"value_float": {"value_float": 0.5}, "value_floats": {"value_floats": [0.5]}, "value": {}, "second": {}}[how]
    if how in ("value", "second") or b.opset < 12:
        k = b.const([1], node=0)
    else:
        k = b.add("Constant", [], at)
    return b.add(b.pick("Add", "Mul"), [t, k])


def broadcast(b, t):
    op = b.pick("Add", "Sub", "Mul", "Div", "Max", "Min", "Mean", "Sum", "Pow")
    n = b.draw(st.integers(1, 3)) if op in ("Max", "Min", "Mean", "Sum") else 1
    others = []
    for _ in range(n):
        s = [d if b.maybe() else 1 for d in b.shape][b.draw(st.integers(0, len(b.shape))):]
        if b.maybe(3):
            s = [b.draw(st.integers(1, 3)), *[1] * (len(b.shape) - len(s)), *s]
        others.append(t if b.maybe(5) else b.const(s, "pos" if op in ("Div", "Pow") else "unit"))
    if n > 1 and b.maybe(4):
        others = others[:0]
    ins = [t, *others]
    if op not in ("Div", "Pow") and b.maybe():
        ins = ins[::-1]
    if op == "Pow":
        t2 = b.add("Abs", [t])
        ins = [t2, *others]
    return b.add(op, ins)


def resize(b, t):
    t = spatial(b, t, 4, 4)
    if b.opset < 10:
        return b.add("Upsample", [t, b.const([4], "one")] if b.opset >= 9 else [t], {"mode": "nearest", **({} if b.opset >= 9 else {"scales": [1.0, 1.0, 2.0, 2.0]})})
    k = b.new("c")
    b.inits[k] = {"shape": [4], "vals": [1.0, 1.0, b.pick(1.0, 2.0, 0.5), b.pick(1.0, 2.0, 1.5)], "dtype": "float32"}
    if b.opset == 10:
        return b.add("Resize", [t, k], {"mode": b.pick("nearest", "linear")})
    at = {"mode": b.pick("nearest", "linear", "cubic"),
          "coordinate_transformation_mode": b.pick("half_pixel", "asymmetric", "align_corners", "pytorch_half_pixel")}
    if b.maybe(2):
        at["nearest_mode"] = b.pick("floor", "ceil", "round_prefer_ceil", "round_prefer_floor")
    if b.opset >= 18 and b.maybe(4):
        at["antialias"] = 1
    roi = ""
    if b.opset < 13:
        roi = b.new("c")
        b.inits[roi] = {"shape": [0], "vals": [], "dtype": "float32"}
    if b.maybe(2):
        sz = [*b.shape[:2], *(b.draw(st.integers(1, 6)) for _ in range(2))]
        if b.opset >= 18 and b.maybe(3):
            at["keep_aspect_ratio_policy"] = b.pick("not_larger", "not_smaller")
        empty = ""
        if b.opset < 13:
            empty = b.new("c")
            b.inits[empty] = {"shape": [0], "vals": [], "dtype": "float32"}
        return b.add("Resize", [t, roi, empty, b.ints(sz)], at)
    return b.add("Resize", [t, roi, k], at)


def other(b, t):
    r = len(b.shape)
    how = b.pick("slice", "split", "expand", "where", "depth", "cast", "argmax", "lstm", "function", "einsum", "cumsum", "topk",
                 "function", "function", "lstm")
    if how == "slice" and b.opset >= 10:
        return b.add("Slice", [t, b.ints([0]), b.ints([max(1, b.shape[-1] - 1)]), b.ints([r - 1])])
    if how == "split" and b.shape[-1] >= 2 and b.opset < 13:
        n = b.shape[-1]
        b.add("Split", [t], {"axis": r - 1, "split": [1, n - 1]}, 2)
        return b.nodes[-1]["out"][b.pick(0, 1)]
    if how == "expand" and b.opset >= 8:
        return b.add("Expand", [t, b.ints([2, *b.shape])])
    if how == "cast":
        u = b.add("Cast", [t], {"to": b.pick(6, 7, 11, 1)})
        return b.add("Cast", [u], {"to": 1})
    if how == "argmax":
        return b.add("Cast", [b.add("ArgMax", [t], {"axis": r - 1})], {"to": 1})
    if how == "depth":
        b.shape = b.shape
        return b.add("DepthToSpace", [t], {"blocksize": 2})
    if how == "cumsum" and b.opset >= 11:
        return b.add("CumSum", [t, b.ints([r - 1])])
    if how == "lstm":
        n = int(np.prod(b.shape))
        h = 2
        d = next((d for d in (2, 3) if n % d == 0), 1)
        u = b.add("Reshape", [t, b.ints([d, 1, n // d])])
        ins = [u, b.const([1, 4 * h, n // d]), b.const([1, 4 * h, h])]
        if b.maybe():
            ins.append(b.const([1, 8 * h]))
        b.add("LSTM", ins, {"hidden_size": h}, b.pick(1, 2, 3))
        return b.nodes[-1]["out"][0]
    if how == "function":
        return b.add(b.pick("Relu", "Tanh", "Reshape", "MyOp", "Dropout", "Sigmoid"), [t], {}, domain="my")
    return b.add("Identity", [t])


MAKERS = {f.__name__: f for f in (unary, clip, softmax, gather, gather_elements, concat, reduce, pad, transpose, tile, matmul, gemm,
                                  conv, pool, batchnorm, norm, dropout, reshape, constant, broadcast, resize, other)}


@st.composite
def cases(draw, names=None):
    opset = draw(st.sampled_from(OPSETS))
    rank = draw(st.sampled_from((1, 2, 2, 3, 3, 4, 4, 4, 4, 5)))
    shape = [draw(st.integers(1, 5 if rank < 5 else 3)) for _ in range(rank)]
    if draw(st.integers(0, 3)):
        shape[0] = 1
    b = B(draw, shape, opset)
    t = "x"
    pre = draw(st.sampled_from((None, None, "Relu", "Add", "Dropout", "Tanh")))
    if pre == "Add":
        t = b.add("Add", [t, b.const([], node=2)])
    elif pre:
        t = b.add(pre, [t])
    name = draw(st.sampled_from(sorted(names or MAKERS)))
    t = MAKERS[name](b, t)
    post = draw(st.sampled_from((None, None, "Relu", "Mul", "Tanh", "Flatten", "twice")))
    if post == "Mul":
        t = b.add("Mul", [t, b.const([], node=2)])
    elif post == "twice":
        t = b.add("Add", [t, b.add("Tanh", [t])])
    elif post:
        t = b.add(post, [t])
    return {"opset": opset, "input": shape, "nodes": b.nodes, "inits": b.inits, "output": t, "dseed": draw(st.integers(0, 999)),
            "n": 2, "kind": name}


def plain(draw, b, t, last):
    """A supported operator, in its ordinary form at the opset of the model."""
    _, c, h, w = b.shape
    op = b.pick("Conv", "Conv", "MaxPool", "AveragePool", "GlobalAveragePool", "BatchNormalization", "Activation", "Clip", "Reduce",
                "Reduce", "Pad", "Transpose", "Concat", "Broadcast", "Broadcast", "Softmax", "Gather", "Tile", "Dropout", "Resize", "Last")
    if op in ("Conv", "MaxPool", "AveragePool"):
        k = [b.draw(st.integers(1, min(3, d))) for d in (h, w)] if op == "Conv" else [b.draw(st.integers(1, min(3, h, w)))] * 2
        s = [b.pick(1, 1, 2)] * 2
        at = {"kernel_shape": k, "strides": s}
        p = [0, 0, 0, 0]
        if b.maybe():
            at["auto_pad"] = b.pick("SAME_UPPER", "SAME_LOWER", "VALID")
        else:
            p = [b.draw(st.integers(0, d - 1)) for d in k + k]
            at["pads"] = p
        if op == "Conv":
            f = b.draw(st.integers(1, 4))
            at["dilations"] = [1, 1]
            ins = [t, b.const([f, c, *k], node=2), *([b.const([f], node=2)] if b.maybe() else [])]
        else:
            f, ins = c, [t]
            if op == "AveragePool" and b.opset >= 7 and b.maybe():
                at["count_include_pad"] = 0
        if at.get("auto_pad", "").startswith("SAME"):
            b.shape = [1, f, -(-h // s[0]), -(-w // s[1])]
        else:
            b.shape = [1, f, *((d + p[i] + p[i + 2] - k[i]) // s[i] + 1 for i, d in enumerate((h, w)))]
        return b.add(op, ins, at)
    if op == "GlobalAveragePool" and h == w:
        b.shape = [1, c, 1, 1]
        return b.add(op, [t])
    if op == "BatchNormalization":
        return b.add(op, [t, *(b.const([c], d, node=2) for d in ("unit", "unit", "unit", "pos"))], {"epsilon": b.pick(1e-5, 1e-3)})
    if op == "Activation":
        a = b.pick("Relu", "LeakyRelu", "Tanh", "Sigmoid", "Exp")
        return b.add(a, [t], {"alpha": b.pick(0.1, 0.5)} if a == "LeakyRelu" else {})
    if op == "Clip":
        if b.opset < 11:
            return b.add("Clip", [t], {"min": -0.25, "max": 0.5})
        k = [b.new("c"), b.new("c")]
        for n, v in zip(k, (-0.25, 0.5)):
            b.inits[n] = {"shape": [], "vals": [v]}
        return b.add("Clip", [t, *k])
    if op == "Reduce":
        op = b.pick("ReduceSum", "ReduceMax", "ReduceMin", "ReduceMean", "ReduceProd")
        axes = sorted(b.draw(st.lists(st.integers(1, 3), min_size=1, max_size=2, unique=True)))
        b.shape = [1 if i in axes else d for i, d in enumerate(b.shape)]
        if b.opset >= 11 and b.maybe():
            axes = [a - 4 for a in axes]
        if b.opset >= (13 if op == "ReduceSum" else 18):
            return b.add(op, [t, b.ints(axes, node=2)], {"keepdims": 1})
        return b.add(op, [t], {"axes": axes, "keepdims": 1})
    if op == "Pad" and b.opset >= 11:
        mode = b.pick("constant", "edge", "reflect")
        p = [0, 0, *(b.draw(st.integers(0, min(1, d - 1))) for d in (h, w))] * 2
        b.shape = [1, c, h + 2 * p[2], w + 2 * p[3]]
        return b.add("Pad", [t, b.ints(p, node=2)], {"mode": mode})
    if op == "Transpose":
        p = b.draw(st.permutations(range(1, 4)))
        b.shape = [1, *(b.shape[i] for i in p)]
        return b.add("Transpose", [t], {"perm": [0, *p]})
    if op == "Concat":
        u = b.add(b.pick("Relu", "Tanh"), [t])
        a = b.draw(st.integers(1, 3))
        b.shape[a] *= 2
        return b.add("Concat", b.pick([t, u], [u, t]), {"axis": a})
    if op == "Broadcast":
        op = b.pick("Add", "Sub", "Mul", "Div", "Max", "Min", "Mean")
        o = b.const([1, *(d if b.maybe() else 1 for d in b.shape[1:])], "pos", node=2)
        if op in ("Max", "Min", "Mean") and b.opset < 8:
            op = "Add"
        return b.add(op, [t, o])
    if op == "Softmax":
        if b.opset < 13:
            b.shape = list(b.shape)
            return b.add("Tanh", [t])
        return b.add("Softmax", [t], {"axis": b.draw(st.integers(1, 3))})
    if op == "Gather":
        a = b.draw(st.integers(1, 3))
        idx = [b.draw(st.integers(0, b.shape[a] - 1)) for _ in range(b.draw(st.integers(1, 3)))]
        b.shape[a] = len(idx)
        return b.add("Gather", [t, b.ints(idx, node=2)], {"axis": a})
    if op == "Tile":
        r = [1, *(b.pick(1, 1, 2) for _ in range(3))]
        b.shape = [d * k for d, k in zip(b.shape, r)]
        return b.add("Tile", [t, b.ints(r, node=2)])
    if op == "Dropout":
        return b.add("Dropout", [t])
    if op == "Resize":
        if b.opset < 11:
            return b.add("Relu", [t])
        k, roi = b.new("c"), ""
        f = [b.pick(1.0, 2.0), b.pick(1.0, 2.0)]
        b.inits[k] = {"shape": [4], "vals": [1.0, 1.0, *f], "dtype": "float32"}
        if b.opset < 13:
            roi = b.new("c")
            b.inits[roi] = {"shape": [0], "vals": [], "dtype": "float32"}
        b.shape = [1, c, int(h * f[0]), int(w * f[1])]
        return b.add("Resize", [t, roi, k], {"mode": b.pick("nearest", "linear"), "coordinate_transformation_mode": "half_pixel"})
    if last:
        n = c * h * w
        how = b.pick("Flatten", "Gemm", "MatMul", "Reshape", "Reduce")
        b.shape = [1, n]
        if how == "Reduce":
            op = b.pick("ReduceMax", "ReduceMean", "ReduceMin")
            return b.add(op, [t, b.ints([2, 3], node=2)] if b.opset >= 18 else [t], {"keepdims": 0, **({"axes": [2, 3]} if b.opset < 18 else {})})
        u = b.add("Flatten", [t]) if how != "Reshape" else b.add("Reshape", [t, b.ints([1, n], node=2)])
        m = b.draw(st.integers(1, 4))
        if how == "Gemm":
            tb = b.pick(0, 1)
            return b.add("Gemm", [u, b.const([m, n] if tb else [n, m], node=2), b.const([m], node=2)], {"transB": tb, "alpha": b.pick(1.0, 0.5)})
        if how == "MatMul":
            return b.add("Add", [b.add("MatMul", [u, b.const([n, m], node=2)]), b.const([1, m], node=2)])
        return u
    return b.add("Sigmoid", [t])


@st.composite
def plains(draw):
    opset = draw(st.sampled_from(OPSETS))
    shape = [1, draw(st.integers(1, 4)), draw(st.integers(1, 6)), draw(st.integers(1, 6))]
    b = B(draw, shape, opset)
    t, n = "x", draw(st.integers(1, 4))
    for i in range(n):
        t = plain(draw, b, t, i == n - 1)
    return {"opset": opset, "input": shape, "nodes": b.nodes, "inits": b.inits, "output": t, "dseed": draw(st.integers(0, 999)),
            "n": 2, "kind": "plain"}


TYPES = {"float32": (1, np.float32), "float16": (10, np.float16), "float64": (11, np.float64), "int32": (6, np.int32),
         "int64": (7, np.int64), "int8": (3, np.int8), "uint8": (2, np.uint8), "bool": (9, np.bool_)}


@st.composite
def graphs(draw):
    """Several inputs and outputs, other types, symbolic dimensions."""
    opset = draw(st.sampled_from((13, 14, 17, 18, 21)))
    kind = draw(st.sampled_from(("outputs", "outputs", "inputs", "inputs", "dtype", "dtype", "symbolic", "both")))
    shape = [1, *draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))]
    b = B(draw, shape, opset)
    case = {}
    tensors = ["x"]
    if kind in ("inputs", "both"):
        sh = shape if draw(st.integers(0, 3)) else [1] * len(shape)
        case["inputs"] = draw(st.permutations([["x", shape], ["z", sh]]))
        tensors.append("z")
    dtype = "float32"
    if kind == "dtype":
        dtype = draw(st.sampled_from([k for k in TYPES if k != "float32"]))
        case["dtype"] = dtype
    if kind == "symbolic":
        case["symbolic"] = draw(st.sampled_from([[0], [0], [0], [len(shape) - 1], list(range(len(shape)))]))
    ops = ["Add", "Mul", "Sub", "Max", "Concat"] + ([] if dtype.startswith(("int", "uint", "bool")) else ["Relu", "Tanh", "MatMul", "Div"])
    for _ in range(draw(st.integers(1, 4))):
        op = draw(st.sampled_from(ops))
        u = tensors[-1] if draw(st.integers(0, 2)) else draw(st.sampled_from(tensors))
        if op in ("Relu", "Tanh"):
            t = b.add(op, [u])
        elif op == "MatMul":
            t = b.add(op, [u, b.const([shape[-1], shape[-1]], node=2)]) if u != "z" else b.add("Tanh", [u])
        elif op == "Concat":
            t = b.add(op, [u, draw(st.sampled_from(tensors))], {"axis": 1 if draw(st.booleans()) else -1})
        else:
            other = draw(st.sampled_from([*tensors, None]))
            if other is None:
                other = b.new("c")
                b.inits[other] = {"shape": [], "vals": [2], "dtype": dtype}
            t = b.add(op, [u, other])
        tensors.append(t)
    case.update({"opset": opset, "input": shape, "nodes": b.nodes, "inits": b.inits, "output": tensors[-1],
                 "dseed": draw(st.integers(0, 999)), "n": 2, "kind": kind})
    if kind in ("outputs", "both"):
        case["outputs"] = draw(st.lists(st.sampled_from(tensors[1:]), min_size=1, max_size=3, unique=True))
        if draw(st.integers(0, 9)) == 0:
            case["outputs"].append("x")
    return case


def build(case):
    def arr(v):
        if v.get("dtype") in TYPES and "vals" in v:
            return np.array(v["vals"], dtype=TYPES[v["dtype"]][1]).reshape(v["shape"])
        if v.get("dist") == "one":
            return np.array([1, 1, 2, 2], dtype=np.float32)
        return np.ascontiguousarray(S.init_values(v, "float32"))
    inits = [numpy_helper.from_array(arr(v), k) for k, v in case["inits"].items() if not v.get("node")]
    nodes = [helper.make_node("Constant", [], [k], value=numpy_helper.from_array(arr(v), "")) for k, v in case["inits"].items() if v.get("node")]
    funs = {}
    for n in case["nodes"]:
        nd = helper.make_node(n["op"], n["in"], n["out"], name="n_" + n["out"][0], domain=n.get("domain", ""), **n.get("attrs", {}))
        if n.get("domain") == "my":
            op = [helper.make_opsetid("", case["opset"])]
            funs[n["op"]] = helper.make_function("my", n["op"], ["u"], ["v"], [helper.make_node("Neg", ["u"], ["v"])], op)
        nodes.append(nd)
    outs = case.get("outputs", [case["output"]])
    ins = case.get("inputs", [["x", case["input"]]])
    tp = TYPES[case.get("dtype", "float32")][0]
    sym = case.get("symbolic", [])
    g = helper.make_graph(nodes, "g", [helper.make_tensor_value_info(k, tp, [f"d{i}" if i in sym else d for i, d in enumerate(s)])
                                       for k, s in ins],
                          [helper.make_empty_tensor_value_info(o) for o in outs], initializer=inits)
    ops = [helper.make_opsetid("", case["opset"])] + ([helper.make_opsetid("my", 1)] if funs else [])
    # other operator sets may be imported, in any order
    if case["dseed"] % 5 > 2:
        ops.insert(0 if case["dseed"] % 5 == 3 else 1, helper.make_opsetid(*(("ai.onnx.ml", 3), ("my.own", 1))[case["dseed"] % 2]))
    m = helper.make_model(g, opset_imports=ops, functions=list(funs.values()))
    m.ir_version = 9
    m = onnx.shape_inference.infer_shapes(m)
    for o in m.graph.output:
        if not o.type.tensor_type.elem_type:
            raise Reject("unknown output type")
        if o.type.tensor_type.elem_type != tp:
            raise Reject("not a float output")
    onnx.checker.check_model(m)
    return m


def describe(case):
    s = f"opset {case['opset']}; x{case['input']}"
    for n in case["nodes"]:
        at = ", ".join(f"{k}={v}" for k, v in n.get("attrs", {}).items())
        s += f"; {', '.join(n['out'])} = {(n['domain'] + '.') if n.get('domain') else ''}{n['op']}({', '.join(n['in'])}{' | ' + at if at else ''})"
    for k, v in case["inits"].items():
        s += f"; {k}{v['shape']}" + (f"={v['vals']}" if "vals" in v and len(v["vals"]) < 10 else "") + (" (node)" if v.get("node") else "")
    return s + f"; output {case.get('outputs', case['output'])}"


def run(case):
    from onnx import checker, shape_inference
    try:
        model = build(case)
    except (checker.ValidationError, shape_inference.InferenceError, ValueError) as e:
        raise Reject(f"invalid model: {str(e)[:80]}") from e
    width = sum(int(np.prod(s)) for _, s in case.get("inputs", [["x", case["input"]]]))
    dt = TYPES[case.get("dtype", "float32")][1]
    x = S.rand_array((case["n"], width), case["dseed"], "unit")
    if dt is not np.float32:
        x = (np.abs(x) * 5 if np.dtype(dt).kind in "ub" else x * 5).astype(dt)
    try:
        sess = J._session(model)
        ref = [np.concatenate([np.asarray(o, dtype=np.float64).ravel() for o in
                               sess.run(None, feed(case, r))]) for r in x]
    except Exception as e:  # noqa: BLE001 - the errors of ONNX Runtime have no common class
        raise Reject(f"ONNX Runtime: {str(e)[:80]}") from e
    if not all(np.all(np.isfinite(r)) for r in ref):
        raise Reject("non finite reference")
    if not ref[0].size:
        raise Reject("empty output")
    labels = [f"opset{case['opset']}", f"rank{len(case['input'])}", *(f"{case['kind']}:{n['op']}" for n in case["nodes"][:4])]
    distinct = len(set(np.concatenate(ref).tolist())) > 1
    with scratch() as d:
        try:
            r = run_acetone(model, x, d, want_py=False)
        except GenError as e:
            if case["kind"] == "plain":
                raise Violation(f"a model of supported operators is refused: {str(e)[:300]}\nmodel: {describe(case)}") from e
            return Info([*labels, "refused"], distinct, {"model": describe(case), "refused": str(e)[:120]})
        except (BuildError, RunError) as e:
            raise Violation(f"{type(e).__name__}: {str(e)[:600]}\nmodel: {describe(case)}") from e
        try:
            run_acetone(model, x, d, want_c=False, gen=r.gen)
            r.py = parse_text((d / "output_python.txt").read_text())
        except GenError as e:
            if case["kind"] == "plain":
                raise Violation(f"no reference inference of a model of supported operators: {str(e)[:300]}\n"
                                f"model: {describe(case)}") from e
            labels.append("refused by the reference inference")
    tol = [1e-3 * max(1.0, float(np.max(np.abs(v)))) for v in ref]
    for what, rows in (("C program", r.c), ("reference inference", r.py)):
        if rows is None:
            continue
        dif = J.diff(rows, ref, tol)
        if dif:
            raise Violation(f"the {what} disagrees with the model: {dif}\nmodel: {describe(case)}")
    return Info([*labels, "accepted", f"ok:{case['kind']}"], distinct, {"model": describe(case), "output": ref[0][:4].tolist()})


def feed(case, r):
    out, k = {}, 0
    for name, s in case.get("inputs", [["x", case["input"]]]):
        n = int(np.prod(s))
        out[name] = np.ascontiguousarray(r[k:k + n]).reshape(s)
        k += n
    return out


fams = [Family(k, (lambda k=k: cases([k])), run, 250) for k in MAKERS]
fams.append(Family("plain", plains, run, 400))
fams.append(Family("graphs", graphs, run, 500))

CHECK = Check(
    "P17", "A model is refused, or computed as ONNX defines it",
    "Small models around one operator drawn with arbitrary attributes, ranks, optional inputs and constants (initializers, "
    "Constant nodes or computed ones), operator sets 7 to 21, many of them outside of what ACETONE supports. When ONNX "
    "Runtime runs the model, ACETONE must refuse it when the generator is created or called, or generate a program, and "
    "a reference inference, with the same outputs. The models of the family plain, chains of supported operators in their ordinary form at the "
    "opset of the model, have to be accepted. Non-trivial: the reference output holds at least two distinct values.",
    fams)
