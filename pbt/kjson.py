"""Networks in the JSON description of ACETONE (Keras semantics): drawing, writing, evaluating."""
import json
import math

import numpy as np
from hypothesis import strategies as st

ACTS = ["linear", "linear", "relu", "sigmoid", "tanh", "leaky_relu"]
MERGE = {"Add": None, "Multiply": None, "Subtract": 2, "Maximum": None, "Minimum": None, "Average": None}


@st.composite
def networks(draw, lo=1, hi=7, branch=3, kinds=None, dtypes=("float32", "float32", "float64"), n=None):
    fmt = draw(st.sampled_from(["channels_last", "channels_last", "channels_first"]))
    dtype = draw(st.sampled_from(dtypes))
    if draw(st.integers(0, 3)):
        shape = [draw(st.integers(1, 4)), draw(st.integers(1, 7)), draw(st.integers(1, 7))]     # C, H, W
    else:
        shape = [draw(st.integers(1, 9))]
    layers = [{"class": "InputLayer", "in": [], "shape": shape}]
    cur = 0
    for _ in range(draw(st.integers(lo, hi))):
        src = cur
        if branch and draw(st.integers(0, 9)) < branch:
            src = draw(st.integers(0, len(layers) - 1))
        la = _layer(draw, layers, src, branch, kinds)
        if la is not None and int(np.prod(la["shape"])) <= 500:
            layers.append(la)
            cur = len(layers) - 1
    # a single output: merge the leaves
    used = {i for la in layers for i in la["in"]}
    leaves = [i for i in range(1, len(layers)) if i not in used]
    flat = []
    for i in leaves if len(leaves) > 1 else []:
        if len(layers[i]["shape"]) == 3:
            layers.append({"class": "Flatten", "in": [i], "shape": [int(np.prod(layers[i]["shape"]))]})
            i = len(layers) - 1
        flat.append(i)
    if flat:
        layers.append({"class": "Concatenate", "in": flat, "axis": draw(st.sampled_from([-1, 1])),
                       "shape": [sum(layers[i]["shape"][0] for i in flat)]})
    return {"fmt": fmt, "dtype": dtype, "layers": layers, "seed": draw(st.integers(0, 2**16)),
            "n": n or draw(st.integers(1, 3))}


def _layer(draw, layers, src, branch, kinds):
    s = layers[src]["shape"]
    menu = ["Dense", "Dropout", "BatchNormalization"] if len(s) == 1 else \
        ["Conv2D", "Conv2D", "Conv2D", "MaxPooling2D", "AveragePooling2D", "ZeroPadding2D", "Flatten",
         "BatchNormalization", "Dropout", "Reshape"]
    if len(s) == 1:
        menu += ["Dense", "Reshape"]
    if branch:
        menu += ["merge", "Concatenate"] * 2
    menu = [m for m in menu if kinds is None or m in kinds]
    if not menu:
        return None
    k = draw(st.sampled_from(menu))
    if k == "merge":
        k = draw(st.sampled_from(sorted(MERGE)))
        cands = [i for i, la in enumerate(layers) if la["shape"] == s]
        m = MERGE[k] or draw(st.integers(2, 3))
        ins = [src] + [draw(st.sampled_from(cands)) for _ in range(m - 1)]
        return {"class": k, "in": ins[::draw(st.sampled_from([1, -1]))], "shape": s}
    if k == "Concatenate":
        ax = draw(st.integers(0, len(s) - 1))       # over (C, H, W)
        cands = [i for i, la in enumerate(layers) if len(la["shape"]) == len(s)
                 and all(j == ax or a == b for j, (a, b) in enumerate(zip(la["shape"], s)))]
        ins = [src] + [draw(st.sampled_from(cands)) for _ in range(draw(st.integers(1, 2)))]
        ins = ins[::draw(st.sampled_from([1, -1]))]
        out = list(s)
        out[ax] = sum(layers[i]["shape"][ax] for i in ins)
        return {"class": k, "in": ins, "shape": out, "ax": ax, "neg": draw(st.booleans())}
    la = {"class": k, "in": [src], "shape": list(s)}
    if k == "Dense":
        la["shape"] = [draw(st.integers(1, 7))]
        la["activation"] = draw(st.sampled_from([*ACTS, "softmax"]))
    elif k == "Conv2D":
        c, h, w = s
        d = draw(st.sampled_from([1, 1, 1, 2]))
        la.update(kernel=[draw(st.integers(1, 3)), draw(st.integers(1, 3))], strides=1 if d > 1 else draw(st.integers(1, 2)),
                  dilation=d, padding=draw(st.sampled_from(["same", "valid"])),
                  activation=draw(st.sampled_from([*ACTS, "softmax"])))
        f = draw(st.integers(1, 4))
        o = [_out(x, (q - 1) * d + 1, la["strides"], la["padding"]) for x, q in zip((h, w), la["kernel"])]
        if min(o) < 1:
            return None
        la["shape"] = [f, *o]
    elif k in ("MaxPooling2D", "AveragePooling2D"):
        la.update(pool=draw(st.integers(1, 3)), padding=draw(st.sampled_from(["same", "valid"])))
        la["strides"] = draw(st.integers(1, 3)) if draw(st.booleans()) else la["pool"]
        o = [_out(x, la["pool"], la["strides"], la["padding"]) for x in s[1:]]
        if min(o) < 1:
            return None
        la["shape"] = [s[0], *o]
    elif k == "ZeroPadding2D":
        form = draw(st.sampled_from(["int", "pair", "quad", "quad"]))
        p = [draw(st.integers(0, 2)) for _ in range(4)]
        p = [p[0]] * 4 if form == "int" else [p[0], p[0], p[1], p[1]] if form == "pair" else p
        la.update(form=form, pads=p)        # top, bottom, left, right
        la["shape"] = [s[0], s[1] + p[0] + p[1], s[2] + p[2] + p[3]]
    elif k == "Flatten":
        la["shape"] = [int(np.prod(s))]
    elif k == "Reshape":
        n = int(np.prod(s))
        c = draw(st.sampled_from([i for i in range(1, n + 1) if n % i == 0]))
        h = draw(st.sampled_from([i for i in range(1, n // c + 1) if (n // c) % i == 0]))
        la["shape"] = [c, h, n // c // h] if len(s) == 1 or draw(st.booleans()) else [n]
    return la


def _out(x, k, s, pad):
    return math.ceil(x / s) if pad == "same" else (x - k) // s + 1


# ------------------------------------------------------------------ parameters and file
def params(net):
    rng = np.random.default_rng(net["seed"])
    ft = np.float32 if net["dtype"] == "float32" else np.float64
    out = []
    for la in net["layers"]:
        p = {}
        cin = net["layers"][la["in"][0]]["shape"][0] if la["in"] else 0
        if la["class"] == "Dense":
            p = {"w": rng.uniform(-1, 1, (cin, la["shape"][0])), "b": rng.uniform(-1, 1, la["shape"][0])}
        elif la["class"] == "Conv2D":
            p = {"w": rng.uniform(-1, 1, (*la["kernel"], cin, la["shape"][0])), "b": rng.uniform(-1, 1, la["shape"][0])}
        elif la["class"] == "BatchNormalization":
            p = {"gamma": rng.uniform(-1, 1, cin), "beta": rng.uniform(-1, 1, cin), "mean": rng.uniform(-1, 1, cin),
                 "var": rng.uniform(0.2, 2, cin), "eps": float(rng.choice([1e-3, 1e-5, 0.1]))}
        out.append({k: v if k == "eps" else v.astype(ft).astype(np.float64) for k, v in p.items()})
    return out


def samples(net):
    rng = np.random.default_rng(net["seed"] + 1)
    n = int(np.prod(net["layers"][0]["shape"]))
    return rng.uniform(-1, 1, (net["n"], n)).astype(net["dtype"])


def write(net, path):
    fmt, ps = net["fmt"], params(net)
    out = []
    for i, (la, p) in enumerate(zip(net["layers"], ps)):
        ins = [net["layers"][j]["shape"] for j in la["in"]]
        c = {"name": f"layer_{i}", "dtype": net["dtype"], "size": int(np.prod(la["shape"])), "idx": i,
             "output_shape": [None, *la["shape"]],
             "input_shape": [[None, *s] for s in ins] if len(ins) > 1 else [None, *(ins or [la["shape"]])[0]],
             "prev_layer_idx": list(la["in"])}
        d = {"class_name": la["class"], "config": c}
        if la["class"] == "Dense":
            c.update(units=la["shape"][0], activation=la["activation"])
            d.update(weights=p["w"][None, None].tolist(), biases=p["b"].tolist())
        elif la["class"] == "Conv2D":
            c.update(filters=la["shape"][0], kernel_size=la["kernel"], strides=[la["strides"]] * 2,
                     dilation_rate=[la["dilation"]] * 2, padding=la["padding"], activation=la["activation"],
                     data_format=fmt, groups=1, use_bias=True)
            d.update(weights=np.moveaxis(p["w"], 2, 0).tolist(), biases=p["b"].tolist())
        elif "Pooling" in la["class"]:
            c.update(pool_size=[la["pool"]] * 2, strides=[la["strides"]] * 2, padding=la["padding"], data_format=fmt)
        elif la["class"] == "ZeroPadding2D":
            q = la["pads"]
            c["padding"] = q[0] if la["form"] == "int" else [q[0], q[2]] if la["form"] == "pair" else \
                [[q[0], q[1]], [q[2], q[3]]]
        elif la["class"] == "Concatenate":
            r = len(la["shape"])
            if "ax" in la:
                ax = la["ax"] + 1 if r == 1 or fmt == "channels_first" else {0: 3, 1: 1, 2: 2}[la["ax"]]
                c["axis"] = ax - r - 1 if la["neg"] else ax
            else:
                c["axis"] = la["axis"]
        elif la["class"] == "BatchNormalization":
            r = len(la["shape"])
            c.update(axis=[1 if r == 1 or fmt == "channels_first" else 3], epsilon=p["eps"], momentum=0.99)
            d.update(gamma=p["gamma"].tolist(), beta=p["beta"].tolist(), moving_mean=p["mean"].tolist(),
                     moving_var=p["var"].tolist())
        elif la["class"] == "Dropout":
            c["rate"] = 0.5
        elif la["class"] == "Reshape":
            s = la["shape"]
            c["target_shape"] = s if len(s) == 1 or fmt == "channels_first" else [s[1], s[2], s[0]]
        out.append(d)
    with open(path, "w") as f:
        json.dump({"class_name": "Functional", "config": {"name": "m", "data_format": fmt, "layers": out}}, f)


# ------------------------------------------------------------------ evaluation
def _act(name, a, axis):
    if name == "relu":
        return np.maximum(a, 0)
    if name == "sigmoid":
        return 1 / (1 + np.exp(-a))
    if name == "tanh":
        return np.tanh(a)
    if name == "leaky_relu":
        return np.where(a > 0, a, 0.2 * a)
    if name == "softmax":
        e = np.exp(a - a.max(axis=axis, keepdims=True))
        return e / e.sum(axis=axis, keepdims=True)
    return a


def _windows(a, kernel, stride, dil, pad, fill):
    """All the windows of a (C, H, W) array: (C, kh*kw, OH, OW)."""
    c, h, w = a.shape
    ek = [(k - 1) * dil + 1 for k in kernel]
    o = [_out(x, k, stride, pad) for x, k in zip((h, w), ek)]
    p = [max(0, (y - 1) * stride + k - x) if pad == "same" else 0 for x, y, k in zip((h, w), o, ek)]
    big = np.pad(a, [(0, 0), (p[0] // 2, p[0] - p[0] // 2), (p[1] // 2, p[1] - p[1] // 2)], constant_values=fill)
    return np.stack([big[:, i * dil: i * dil + (o[0] - 1) * stride + 1: stride,
                         j * dil: j * dil + (o[1] - 1) * stride + 1: stride]
                     for i in range(kernel[0]) for j in range(kernel[1])], axis=1)


def evaluate(net, x, ps):
    """Values of every layer for one sample, in (C, H, W) order, and the flat output in the order of the format."""
    last = net["fmt"] == "channels_last"

    def flat(a):
        return (a.transpose(1, 2, 0) if a.ndim == 3 and last else a).ravel()

    def shaped(v, s):
        if len(s) == 1 or not last:
            return v.reshape(s)
        return v.reshape(s[1], s[2], s[0]).transpose(2, 0, 1)
    vals = []
    for la, p in zip(net["layers"], ps):
        ins = [vals[i] for i in la["in"]]
        k = la["class"]
        if k == "InputLayer":
            a = shaped(x, la["shape"])
        elif k == "Dense":
            a = _act(la["activation"], ins[0] @ p["w"] + p["b"], 0)
        elif k == "Conv2D":
            w = _windows(ins[0], la["kernel"], la["strides"], la["dilation"], la["padding"], 0.0)
            wt = p["w"].reshape(-1, *p["w"].shape[2:])            # (kh*kw, cin, f)
            a = _act(la["activation"], np.einsum("ckhw,kcf->fhw", w, wt) + p["b"][:, None, None], 0)
        elif k == "MaxPooling2D":
            a = _windows(ins[0], [la["pool"]] * 2, la["strides"], 1, la["padding"], -np.inf).max(axis=1)
        elif k == "AveragePooling2D":
            w = _windows(ins[0], [la["pool"]] * 2, la["strides"], 1, la["padding"], np.nan)
            a = np.nanmean(w, axis=1)
        elif k == "ZeroPadding2D":
            q = la["pads"]
            a = np.pad(ins[0], [(0, 0), (q[0], q[1]), (q[2], q[3])])
        elif k == "Flatten":
            a = flat(ins[0])
        elif k == "Reshape":
            a = shaped(flat(ins[0]), la["shape"])
        elif k == "Concatenate":
            a = np.concatenate(ins, axis=la.get("ax", 0))
        elif k == "BatchNormalization":
            e = (slice(None),) + (None,) * (ins[0].ndim - 1)
            a = (ins[0] - p["mean"][e]) / np.sqrt(p["var"] + p["eps"])[e] * p["gamma"][e] + p["beta"][e]
        elif k == "Dropout":
            a = ins[0]
        else:
            f = {"Add": np.add, "Multiply": np.multiply, "Subtract": np.subtract, "Maximum": np.maximum,
                 "Minimum": np.minimum, "Average": np.add}[k]
            a = ins[0]
            for b in ins[1:]:
                a = f(a, b)
            if k == "Average":
                a = a / len(ins)
        assert list(a.shape) == list(la["shape"]), (k, a.shape, la["shape"])
        vals.append(a)
    return vals, flat(vals[-1])


def reference(net, x, reltol=None):
    """(outputs, tolerances): the tolerance follows the conditioning, measured with perturbed parameters."""
    eps = 2.0 ** -21 if net["dtype"] == "float32" else 2.0 ** -49
    reltol = reltol or (1e-5 if net["dtype"] == "float32" else 1e-12)
    ps = params(net)
    rng = np.random.default_rng(11)
    rows, tol = [], []
    with np.errstate(all="ignore"):
        for r in x.astype(np.float64):
            vals, out = evaluate(net, r, ps)
            big = max(1.0, *(float(np.max(np.abs(v))) for v in vals))
            t = reltol * max(1.0, float(np.max(np.abs(out)))) + 0.1 * reltol * big
            for _ in range(2):
                pp = [{k: v if k == "eps" else v * (1 + rng.choice([-1, 1], v.shape) * eps) for k, v in p.items()}
                      for p in ps]
                _, o2 = evaluate(net, r * (1 + rng.choice([-1, 1], r.shape) * eps), pp)
                t += 4 * float(np.max(np.abs(o2 - out)))
            rows.append(out)
            tol.append(t)
    return rows, tol


def describe(net):
    def one(i, la):
        at = {k: v for k, v in la.items() if k not in ("class", "in", "shape")}
        return f"{i}:{la['class']}{la['in']}->{la['shape']}" + (f" {at}" if at else "")
    return f"{net['fmt']} {net['dtype']}: " + "; ".join(one(i, la) for i, la in enumerate(net["layers"]))
